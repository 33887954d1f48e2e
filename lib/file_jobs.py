"""Several processes on one file store, stepped from file system call to file system call; judged by FileTrace."""

from __future__ import annotations

import json
import logging
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

import common
import sbodies

TRACED = ("asyncz/stores/file.py", "asyncz/file_locking.py", "asyncz/locks.py", "asyncz/stores/base.py")
TIMES = [1, 2, 3, 9]  # 9: paused
NOW0 = 2


def child_stops():
    """dies with the worker"""
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def run_time(t):
    from store_jobs import at

    return None if t == 9 else at(2 * t + 8)


def make(id, v, t):
    from asyncz.tasks import Task
    from asyncz.triggers import DateTrigger

    pad = ["x" * 150_000] if v % 5 == 0 else []
    task = Task(sbodies.plain, id=id, args=[v] * 40 + pad, kwargs={"v": v}, name=f"v{v}", trigger=DateTrigger(run_at=run_time(1)),
                executor="default", coalesce=True, max_instances=1, mistrigger_grace_time=1)  # fmt: skip
    task.next_run_time = run_time(t)
    return task


def version(task, times):
    """of a task that was read; "mix" when it is none that was written"""
    v = task.kwargs.get("v")
    ok = isinstance(v, int) and list(task.args[:40]) == [v] * 40 and task.name == f"v{v}" and task.next_run_time == run_time(times[v - 1])
    return f"v{v}" if ok else "mix"


def perform(store, o, times):
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    r = {"r": "ok", "res": []}
    try:
        if o["op"] == "add":
            store.add_task(make(o["id"], o["v"], times[o["v"] - 1]))
        elif o["op"] == "update":
            store.update_task(make(o["id"], o["v"], times[o["v"] - 1]))
        elif o["op"] == "delete":
            store.delete_task(o["id"])
        elif o["op"] == "clear":
            store.remove_all_tasks()
        elif o["op"] == "lookup":
            task = store.lookup_task(o["id"])
            r["r"] = "none" if task is None else version(task, times)
        else:
            tasks = store.get_all_tasks() if o["op"] == "list" else store.get_due_tasks(run_time(o["now"]))
            for task in tasks:
                v = version(task, times)
                r["res"].append({"id": task.id, "v": v, "t": times[int(v[1:]) - 1] if v != "mix" else 0})
    except ConflictIdError:
        r["r"] = "conflict"
    except TaskLookupError:
        r["r"] = "missing"
    except Exception as exc:
        r["r"] = "error " + repr(exc)[:300] + traceback.format_exc()[-300:]
    return r


def open_store(directory):
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.stores.file import FileStore

    store = FileStore(directory=directory)
    store.start(AsyncIOScheduler(), "st")
    return store


class FileRole:
    """what a child does: operations of one file store"""

    traced = TRACED

    def __init__(self, directory):
        self.dir = directory

    def setup(self):
        self.store = open_store(self.dir)

    def point(self, event, args, paths):
        """the name of a step before which the process stops, or None"""
        if event.startswith("fcntl."):
            return "unlock" if event == "fcntl.flock" and args[1] == 8 else "flock"
        if event == "open":
            return "create" if (args[2] or 0) & os.O_CREAT else "open"
        if event in ("os.remove", "os.unlink"):
            return "unlink" if os.path.basename(paths[0]) in ("a.task", "b.task") else "unlinktmp"
        return {"os.link": "link", "os.rename": "rename"}.get(event, event)

    def perform(self, job, stop):
        return perform(self.store, job["o"], job["times"])


class Child:
    """one process; it stops before each file system call (and each line) until it is told to go on"""

    def __init__(self, role):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                child_stops()
                os.close(b)
                os.close(c)
                self._main(os.fdopen(a, "r"), d, role)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.out, self.inp = b, c
        self.buf = b""
        self.at = None  # where it waits: None: idle
        self.blocked = False

    def _main(self, inp, out, role):
        state = {"on": False, "lines": False}

        def stop(what, **more):
            state["on"] = False
            os.write(out, json.dumps({"at": what, **more}).encode() + b"\n")
            if inp.readline() == "":
                os._exit(0)
            state["on"] = True

        def audit(event, args):
            if not state["on"]:
                return
            paths = []
            if not event.startswith("fcntl."):
                if not (event in ("open", "shutil.rmtree", "glob.glob") or event.startswith("os.")):
                    return
                for x in args[:2]:
                    if isinstance(x, (str, bytes)) or hasattr(x, "__fspath__"):
                        paths.append(os.fsdecode(x))
                if not any(p.startswith(role.dir) for p in paths):
                    return
            what = role.point(event, args, paths)
            if what:
                stop(what)

        def local(frame, event, arg):
            if event == "line" and state["on"] and state["lines"]:
                stop("line")
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith(role.traced) else None

        sys.addaudithook(audit)
        while True:
            line = inp.readline()
            if not line:
                os._exit(0)
            job = json.loads(line)
            if job.get("open"):
                role.setup()
                os.write(out, b'{"ok": 1}\n')
                continue
            state["lines"] = job["lines"]
            if job["lines"]:
                sys.settrace(tracer)
            state["on"] = True
            r = role.perform(job, stop)
            state["on"] = False
            sys.settrace(None)
            os.write(out, json.dumps({"ret": r}).encode() + b"\n")

    # in the parent -------------------------------------------------------------
    def send(self, job):
        os.write(self.out, json.dumps(job).encode() + b"\n")

    def receive(self, timeout):
        """the next message, None when there is none in time"""
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0 or not select.select([self.inp], [], [], left)[0]:
                return None
            data = os.read(self.inp, 1 << 20)
            if not data:
                return {"gone": True}
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.out)
        os.close(self.inp)


class Stage:
    def __init__(self, directory):
        logging.disable(logging.CRITICAL)
        self.dir = os.path.join(directory, "files")
        self.children = {}
        self.entries, self.seg = [], -1
        import asyncz.schedulers  # noqa: F401
        import asyncz.stores.file  # noqa: F401
        import store_jobs  # noqa: F401

    def stop(self):
        for c in self.children.values():
            c.kill()

    def role(self):
        return FileRole(self.dir)

    def reached(self, p, m):
        """a process has stopped somewhere"""

    def leaving(self, p):
        """a process is about to go on"""

    def child(self, p):
        if p not in self.children:
            c = self.children[p] = Child(self.role())
            c.send({"open": True})
            if not (c.receive(20) or {}).get("ok"):
                raise RuntimeError("no child")
        return self.children[p]

    def emit(self, e):
        self.entries.append({"seg": self.seg, **e})

    def begin(self, init, times, procs):
        """a fresh directory with the given tasks"""
        self.seg += 1
        self.times = times
        os.makedirs(self.dir, exist_ok=True)
        for name in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, name))
        store = open_store(self.dir)
        for id, v in init.items():
            if v > 0:
                store.add_task(make(id, v, times[v - 1]))
            elif v == -1:
                with open(os.path.join(self.dir, id + ".task"), "wb") as f:
                    f.write(b"cnosuchmodule\nThing\n.")
        self.post = store
        self.emit({"op": "new", "init": init, "times": times, "procs": procs})
        self.ops, self.hung, self.done_steps = {}, False, 0

    def call(self, p, o, lines):
        c = self.child(p)
        self.emit({"op": "call", "p": p, "o": {"id": "", "v": 0, "now": 0, **o}})
        self.ops[p] = o
        c.send({"o": o, "lines": lines, "times": self.times})
        c.at = "start"
        self.wait(p)

    def wait(self, p):
        """until the process stops again or has finished or is blocked"""
        c = self.children[p]
        before = c.at
        m = c.receive(0.02 if before in ("flock", "line") or c.blocked else 20)
        if m is None:
            c.blocked = True
            return
        c.blocked = False
        if "ret" in m:
            c.at = None
            self.emit({"op": "ret", "p": p, **m["ret"]})
        elif "at" in m:
            c.at = m["at"]
            self.reached(p, m)
        else:
            c.at = None
            self.emit({"op": "ret", "p": p, "r": "error gone", "res": []})
            self.kill(p, False)

    def go(self, p):
        c = self.children[p]
        if c.at is None:
            return
        if not c.blocked:
            self.leaving(p)
            c.send({})
            self.done_steps += 1
        self.wait(p)

    def kill(self, p, log=True):
        c = self.children.pop(p)
        if log and c.at is not None:
            self.emit({"op": "death", "p": p})
        c.kill()

    def active(self):
        return [p for p, c in self.children.items() if c.at is not None]

    def finish(self, pick=None):
        """everybody runs to the end"""
        idle = time.monotonic()
        while self.active():
            ps = self.active()
            free = [p for p in ps if not self.children[p].blocked]
            if free:
                idle = time.monotonic()
                self.go((pick or (lambda x: x[0]))(free))
            else:
                for p in ps:
                    self.wait(p)
                if time.monotonic() - idle > 4:
                    self.emit({"op": "hang", "d": str({p: self.children[p].at for p in ps})})
                    for p in ps:
                        self.kill(p, False)
                    self.hung = True
                    return

    def after(self, ids, v0):
        """the store is usable: everything once more, by this process"""
        v = v0
        for o in [{"op": "list"}, *({"op": "lookup", "id": i} for i in ids)]:
            self.own(o)
        for id in ids:
            for op in ("add", "update", "lookup", "delete", "add", "lookup"):
                o = {"op": op, "id": id}
                if op in ("add", "update"):
                    o["v"] = v
                    v += 1
                self.own(o)
        self.own({"op": "due", "now": NOW0})
        self.own({"op": "clear"})
        self.own({"op": "list"})

    def own(self, o):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(10)
        try:
            self.emit({"op": "call", "p": 0, "o": {"id": "", "v": 0, "now": 0, **o}})
            self.emit({"op": "ret", "p": 0, **perform(self.post, o, self.times)})
        except Hang:
            self.emit({"op": "hang", "d": "afterwards: " + str(o)})
        finally:
            signal.alarm(0)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def times(n, seed=0):
    r = random.Random(seed)
    return [r.choice(TIMES) for _ in range(n)]


# ------------------------------------------------------------------ scripts
SILENT = {"write", "stat", "read", "ret"}


def run_model(stage, s):
    """a behaviour of FileMC: {k: kinds, x: start, h: [[p, step], ...]}"""
    kinds = s["k"] if isinstance(s["k"], list) else [s["k"][str(k + 1)] for k in range(len(s["k"]))]
    n = len(kinds)
    x = {100: n + 1, 0: 0, -1: -1}[s["x"]]
    stage.begin({"a": x}, times(n + 20, s.get("seed", 0)), [0, *range(1, n + 1)])
    exact = True
    for p, step in s["h"]:
        if step == "call":
            o = {"op": kinds[p - 1], "id": "a"}
            if o["op"] in ("add", "update"):
                o["v"] = p
            stage.call(p, o, False)
            continue
        c = stage.children[p]
        if step == "kill":
            if c.at is None:
                exact = False  # it is through already
            stage.kill(p)
            continue
        if step in SILENT:
            if step == "ret":
                while c.at is not None and not c.blocked:
                    stage.go(p)
            continue
        while c.at not in (None, step) and c.at not in ("create", "open", "flock", "link", "rename", "unlink", "unlinktmp") and not c.blocked:
            stage.go(p)
        if c.at == step and not c.blocked:
            stage.go(p)
        else:
            exact = False
    stage.finish()
    if not stage.hung:
        stage.after(["a"], n + 2)
    return exact


def random_plan(seed):
    r = random.Random(seed)
    n = r.choice([2, 2, 2, 3])
    v = 0
    ids = ["a", "b"] if r.random() < 0.5 else ["a"]
    init = {}
    for i in ids:
        y = r.random()
        if y < 0.5:
            v += 1
            init[i] = v
        else:
            init[i] = 0 if y < 0.85 else -1
    todo = {}
    for p in range(1, n + 1):
        todo[str(p)] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            op = r.choice(["add", "add", "update", "update", "delete", "lookup", "list", "due", "clear"])
            o = {"op": op}
            if op in ("add", "update"):
                v += 1
                o["v"] = v
            if op in ("add", "update", "delete", "lookup"):
                o["id"] = r.choice(ids)
            if op == "due":
                o["now"] = r.choice([1, 2, 3])
            todo[str(p)].append(o)
    return {"seed": seed, "init": init, "todo": todo, "v": v, "kill": r.choice([0, 0, 1, 2]), "lines": r.random() < 0.7,
            "mode": r.choice(["pct", "walk"]), "switch": r.choice([1, 2, 3])}  # fmt: skip


def run_random(stage, s):
    r = random.Random(s["seed"] + ":sched")
    ids = list(s["init"])
    todo = {int(p): list(os_) for p, os_ in s["todo"].items()}
    stage.begin(s["init"], times(s["v"] + 20, s["seed"]), [0, *todo])
    kills = sorted(r.randrange(1, 120 if s["lines"] else 25) for _ in range(s["kill"]))
    changes = sorted(r.randrange(1, 150 if s["lines"] else 30) for _ in range(s["switch"]))
    order = list(todo)
    r.shuffle(order)
    n = 0
    idle = time.monotonic()
    while True:
        active = stage.active()
        waiting = [p for p in todo if todo[p] and p not in active]
        choices = [p for p in [*active, *waiting] if p in waiting or not stage.children[p].blocked]
        if not choices:
            if not active:
                break
            for p in active:
                stage.wait(p)
            if all(stage.children[p].blocked for p in stage.active()) and time.monotonic() - idle > 4:
                stage.finish()
                break
            continue
        idle = time.monotonic()
        n += 1
        if s["mode"] == "walk":
            p = r.choice(choices)
        else:
            if changes and n >= changes[0]:
                changes.pop(0)
                order.append(order.pop(0))
            p = min(choices, key=order.index)
        if p in waiting:
            stage.call(p, todo[p].pop(0), s["lines"])
        elif kills and n >= kills[0]:
            kills.pop(0)
            stage.kill(p)
            if r.random() < 0.5:
                todo[p] = []
        else:
            stage.go(p)
    if not stage.hung:
        stage.after(ids, s["v"] + 1)
    return True


def crash_plans(job):
    """one process, killed at every single step of every operation"""
    return [{"crash": k, "op": op, "init": x} for op in ("add", "update", "delete", "clear", "lookup", "list") for x in (0, 1, -1) for k in range(90)]


def run_crash(stage, s):
    stage.begin({"a": s["init"], "b": 2}, times(30, s["crash"]), [0, 1])
    o = {"op": s["op"]}
    if s["op"] in ("add", "update"):
        o["v"] = 5  # a big record
    if s["op"] in ("add", "update", "delete", "lookup"):
        o["id"] = "a"
    stage.call(1, o, True)
    for _ in range(s["crash"]):
        if 1 in stage.active():
            stage.go(1)
    reached = 1 in stage.active()
    if reached:
        stage.kill(1)
    stage.after(["a", "b"], 6)
    return reached


def run_all(job, scripts, fn, stage=Stage, module="FileTrace", prop="D03"):
    stage = stage(job["dir"])
    exact, crashes = 0, []
    try:
        for s in scripts:
            try:
                exact += bool(fn(stage, s))
            except Exception:
                crashes.append((stage.seg, traceback.format_exc()[-1500:]))
                for p in list(stage.children):
                    stage.kill(p, False)
    finally:
        stage.stop()
        shutil.rmtree(stage.dir, ignore_errors=True)
    trace = os.path.join(job["dir"], "trace.ndjson")
    common.write_trace(trace, stage.entries)
    bads, stats = common.validate(module, trace)
    out = []
    for b in bads:
        if not any(o["seg"] == b["seg"] for o in out):
            out.append({**b, "script": scripts[b["seg"]], "history": [e for e in stage.entries if e["seg"] == b["seg"]][:40]})
    for seg, text in crashes:
        out.append({"n": 0, "seg": seg, "cl": "broken", "props": [prop], "d": text, "script": scripts[seg], "history": []})
    return {"bads": out[:40], "stats": stats, "segs": len(scripts), "entries": len(stage.entries), "exact": exact,
            "sample": scripts[0] if scripts else None}  # fmt: skip


def model_job(job):
    return run_all(job, job["scripts"], run_model)


def random_job(job):
    return run_all(job, [random_plan(f"file:{job['seed0'] + k}") for k in range(job["n"])], run_random)


def crash_job(job):
    plans = crash_plans(job)
    return run_all(job, plans[job["part"] :: job["parts"]], run_crash)


def replay(job):
    def one(stage, s):
        return (run_crash if "crash" in s else run_random if "todo" in s else run_model)(stage, s)

    return run_all(job, job["scripts"], one)
