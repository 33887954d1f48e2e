"""Several processes on one lock file, stepped from file system call to file system call; judged by LockTrace.
Several processes with a scheduler each on one shared store; judged by ShareTrace."""

from __future__ import annotations

import os
import random
import signal
import sys
import time

import file_jobs
from file_jobs import Hang, Stage

TRACED = ("asyncz/file_locking.py", "asyncz/locks.py")


class Boom(Exception):
    pass


class LockRole:
    traced = TRACED

    def __init__(self, directory):
        self.dir = directory
        self.stop = None

    def setup(self):
        from asyncz.locks import FileLockProtected

        self.lock = FileLockProtected(os.path.join(self.dir, "the.lock"))
        stat = os.stat

        def watched(path, *args, **kwargs):
            if self.stop and not isinstance(path, int) and os.fsdecode(path).startswith(self.dir):
                self.stop("stat")
            return stat(path, *args, **kwargs)

        os.stat = watched

    def point(self, event, args, paths):
        if event.startswith("fcntl."):
            return "unlock" if event == "fcntl.flock" and args[1] == 8 else "flock"
        if event == "open":
            return "create" if (args[2] or 0) & os.O_CREAT else "open"
        if event in ("os.remove", "os.unlink"):
            return "os.remove"
        return event

    def perform(self, job, stop):
        self.stop = stop
        try:
            return {"r": self.act(job["o"], stop)}
        except Boom:
            return {"r": "ok"}
        except Exception as exc:
            return {"r": "error " + repr(exc)[:300]}
        finally:
            self.stop = None

    def act(self, o, stop):
        if o["op"] == "shut":
            self.lock.shutdown()
            return "ok"
        with self.lock.protected() as locked:
            child = 0
            if o.get("fork"):
                # e.g. a worker of a process pool: it lives on
                tracer = sys.gettrace()
                sys.settrace(None)
                ready, there = os.pipe()
                child = os.fork()
                if child == 0:
                    os.write(there, b"x")
                    time.sleep(300)
                    os._exit(0)
                os.close(there)
                os.read(ready, 1)  # the child exists and is done with what it does first
                os.close(ready)
                sys.settrace(tracer)
            stop("inside" if locked else "outside", pid=child)
            if locked and o.get("nest"):
                with self.lock.protected() as again:
                    stop("nested", locked=again)
            if child:
                os.kill(child, signal.SIGKILL)
            if o["op"] == "raise":
                raise Boom()
        return "ok"


class LockStage(Stage):
    def __init__(self, directory):
        super().__init__(directory)
        self.forked = []
        import asyncz.locks  # noqa: F401

    def role(self):
        return LockRole(self.dir)

    def stop(self):
        super().stop()
        self.reap()

    def reap(self):
        for pid in self.forked:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.forked = []

    def begin(self):
        self.seg += 1
        self.times = []
        self.reap()
        os.makedirs(self.dir, exist_ok=True)
        for name in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, name))
        self.emit({"op": "new"})
        self.hung, self.ops, self.done_steps = False, {}, 0

    def reached(self, p, m):
        if m["at"] in ("inside", "outside"):
            if m.get("pid"):
                self.forked.append(m["pid"])
            self.emit({"op": "in", "p": p, "locked": m["at"] == "inside"})
        elif m["at"] == "nested":
            self.emit({"op": "nested", "p": p, "locked": m["locked"]})

    def leaving(self, p):
        if self.children[p].at == "inside" and not self.ops[p].get("nest") or self.children[p].at == "nested":
            self.emit({"op": "out", "p": p})

    def call(self, p, o, lines):
        self.ops[p] = o
        super().call(p, o, lines)

    def after(self):
        """the next one gets in, whatever happened before"""
        from asyncz.locks import FileLockProtected

        signal.signal(signal.SIGALRM, file_jobs._alarm)
        signal.alarm(10)
        try:
            for _ in range(2):
                lock = FileLockProtected(os.path.join(self.dir, "the.lock"))
                self.emit({"op": "call", "p": 0, "o": {}})
                r = "ok"
                try:
                    with lock.protected() as locked:
                        self.emit({"op": "in", "p": 0, "locked": locked})
                        self.emit({"op": "out", "p": 0})
                except Exception as exc:
                    r = "error " + repr(exc)[:300]
                self.emit({"op": "ret", "p": 0, "r": r})
                lock.shutdown()
        except Hang:
            self.emit({"op": "hang", "d": "afterwards"})
        finally:
            signal.alarm(0)


POINTS = {"create", "open", "flock", "stat", "os.remove", "unlock", "inside", "outside", "nested"}


def run_model(stage, s):
    """a behaviour of LockMC: {k: operations of each process, h: [[p, step], ...]}"""
    kinds = s["k"] if isinstance(s["k"], list) else [s["k"][str(k + 1)] for k in range(len(s["k"]))]
    left = {p + 1: list(ks) for p, ks in enumerate(kinds)}
    stage.begin()
    exact = True
    for p, step in s["h"]:
        if step == "call":
            op = left[p].pop(0)
            stage.call(p, {"op": op, **s.get("extra", {})}, False)
            continue
        c = stage.children.get(p)
        if c is None:
            exact = False
            continue
        if step == "kill":
            if c.at is None:
                exact = False
            stage.kill(p)
            continue
        if step == "ret":
            while c.at is not None and not c.blocked:
                stage.go(p)
            continue
        while c.at not in (None, step) and c.at not in POINTS and not c.blocked:
            stage.go(p)
        if c.at == step and not c.blocked:
            stage.go(p)
        else:
            exact = False
    stage.finish()
    if not stage.hung:
        stage.after()
    return exact


def random_plan(seed):
    r = random.Random(seed)
    n = r.choice([2, 2, 3, 3, 4])
    todo = {}
    for p in range(1, n + 1):
        todo[str(p)] = []
        for _ in range(r.choice([1, 2, 3, 4])):
            o = {"op": r.choice(["try", "try", "try", "raise", "shut"])}
            if r.random() < 0.1:
                o["nest"] = 1
            elif r.random() < 0.1:
                o["fork"] = 1
            todo[str(p)].append(o)
    return {"seed": seed, "todo": todo, "kill": r.choice([0, 0, 1, 2]), "lines": r.random() < 0.6,
            "mode": r.choice(["pct", "walk"]), "switch": r.choice([1, 2, 3])}  # fmt: skip


def run_random(stage, s):
    todo = {int(p): list(os_) for p, os_ in s["todo"].items()}
    stage.begin()
    schedule(stage, s, todo, 60 if s["lines"] else 20)
    if not stage.hung:
        stage.after()
    return True


def schedule(stage, s, todo, span):
    r = random.Random(s["seed"] + ":sched")
    kills = sorted(r.randrange(1, span) for _ in range(s["kill"]))
    changes = sorted(r.randrange(1, span * 2) for _ in range(s["switch"]))
    order = list(todo)
    r.shuffle(order)
    n = 0
    idle = time.monotonic()
    while True:
        active = stage.active()
        waiting = [p for p in todo if todo[p] and p not in active]
        choices = [p for p in [*active, *waiting] if p in waiting or not stage.children[p].blocked]
        if not choices:
            if not active:
                break
            for p in active:
                stage.wait(p)
            if all(stage.children[p].blocked for p in stage.active()) and time.monotonic() - idle > 4:
                stage.finish()
                break
            continue
        idle = time.monotonic()
        n += 1
        if s["mode"] == "walk":
            p = r.choice(choices)
        else:
            if changes and n >= changes[0]:
                changes.pop(0)
                order.append(order.pop(0))
            p = min(choices, key=order.index)
        if p in waiting:
            stage.call(p, todo[p].pop(0), s["lines"])
        elif kills and n >= kills[0]:
            kills.pop(0)
            stage.kill(p)
            if r.random() < 0.5:
                todo[p] = []
        else:
            stage.go(p)


def model_job(job):
    return file_jobs.run_all(job, job["scripts"], run_model, LockStage, "LockTrace", "D04")


def random_job(job):
    plans = [random_plan(f"lock:{job['seed0'] + k}") for k in range(job["n"])]
    return file_jobs.run_all(job, plans, run_random, LockStage, "LockTrace", "D04")


def replay(job):
    def one(stage, s):
        return (run_random if "todo" in s else run_model)(stage, s)

    return file_jobs.run_all(job, job["scripts"], one, LockStage, "LockTrace", "D04")
