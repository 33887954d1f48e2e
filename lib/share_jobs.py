"""Several processes with a scheduler each on shared stores with a lock file; judged by ShareTrace."""

from __future__ import annotations

import os
import random
from datetime import timedelta

import file_jobs
import sbodies
from file_jobs import Stage
from lock_jobs import schedule

TRACED = ("asyncz/locks.py", "asyncz/file_locking.py", "asyncz/schedulers/base.py", "asyncz/stores/base.py", "asyncz/stores/file.py")
RETRY = 5


class Fault(Exception):
    pass


def at(s):
    from vclock import CLOCK

    return CLOCK.epoch + timedelta(seconds=s)


def build(role, directory, conf, observed=True):
    from asyncz.executors.base import BaseExecutor
    from asyncz.schedulers.base import BaseScheduler
    from asyncz.stores.file import FileStore
    from asyncz.stores.sqlalchemy import SQLAlchemyStore

    class Watched:
        def get_due_tasks(self, now):
            role.say("due", sa=self.alias)
            if role.fault == "due":
                raise Fault("due")
            return super().get_due_tasks(now)

        def get_next_run_time(self):
            if role.fault == "next":
                role.say("next", sa=self.alias)
                raise Fault("next")
            result = super().get_next_run_time()
            role.say("next", sa=self.alias)
            return result

        def update_task(self, task):
            super().update_task(task)
            role.say("put", id=task.id)

        def delete_task(self, task_id):
            super().delete_task(task_id)
            role.say("put", id=task_id)

    class WatchedFile(Watched, FileStore):
        pass

    class WatchedSQL(Watched, SQLAlchemyStore):
        pass

    class Recorder(BaseExecutor):
        def do_send_task(self, task, run_times):
            role.say("sub", id=task.id, ts=[int((t - at(0)).total_seconds()) for t in run_times])
            self.run_task_success(task.id, [])

    class Scheduler(BaseScheduler):
        def wakeup(self):
            pass

        def create_default_executor(self):
            return Recorder()

    stores = {}
    for k, kind in enumerate(conf["stores"]):
        alias = "default" if k == 0 else f"more{k}"
        if kind == "sql":
            stores[alias] = (WatchedSQL if observed else SQLAlchemyStore)(database=f"sqlite:///{directory}/{alias}.db")
        else:
            stores[alias] = (WatchedFile if observed else FileStore)(directory=os.path.join(directory, alias))
    return Scheduler(
        timezone="UTC", stores=stores, executors={"default": Recorder()}, store_retry_interval=RETRY,
        lock_path=os.path.join(directory, conf["lock"]),
    )  # fmt: skip


class ShareRole:
    traced = TRACED

    def __init__(self, directory, conf):
        self.dir, self.conf, self.stop, self.fault = directory, conf, None, None

    def say(self, what, **more):
        if self.stop:
            self.stop(what, **more)

    def point(self, event, args, paths):
        return None

    def setup(self):
        self.scheduler = build(self, self.dir, self.conf)
        self.scheduler.start()

    def perform(self, job, stop):
        from vclock import CLOCK

        o = job["o"]
        CLOCK.us = o["now"] * 1_000_000
        stop("begin")
        self.stop, self.fault = stop, o.get("fault")
        try:
            if o["op"] == "restart":
                self.scheduler.shutdown(wait=False)
                self.scheduler = build(self, self.dir, self.conf)
                self.scheduler.start()
                return {"r": "ok", "wait": 0}
            wait = self.scheduler.process_tasks()
            return {"r": "ok", "wait": -1 if wait is None else int(wait * 1000)}
        except Exception as exc:
            return {"r": "error " + repr(exc)[:300], "wait": 0}
        finally:
            self.stop = None


class ShareStage(Stage):
    def __init__(self, directory):
        super().__init__(directory)
        import vclock

        vclock.import_core()

    def role(self):
        return ShareRole(self.dir, self.conf)

    def begin(self, conf):
        import shutil

        from vclock import CLOCK

        for p in list(self.children):
            self.kill(p, False)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.seg += 1
        self.sa, self.due = {}, {}
        self.conf, self.times, self.hung, self.ops, self.done_steps = conf, [], False, {}, 0
        CLOCK.us = 0
        quiet = ShareRole(self.dir, conf)
        scheduler = build(quiet, self.dir, conf, False)
        scheduler.start(paused=True)
        tasks = []
        for t in conf["tasks"]:
            alias = "default" if t["s"] == 0 else f"more{t['s']}"
            if t["per"]:
                trigger = {"trigger": "interval", "seconds": t["per"], "start_at": at(t["st"]), "end_at": at(t["en"])}
            else:
                trigger = {"trigger": "date", "run_at": at(t["st"])}
            kind = trigger.pop("trigger")
            from asyncz.triggers import DateTrigger, IntervalTrigger

            scheduler.add_task(
                sbodies.plain, {"interval": IntervalTrigger, "date": DateTrigger}[kind](timezone="UTC", **trigger),
                id=t["id"], store=alias, coalesce=False, mistrigger_grace_time=None, max_instances=100,
            )  # fmt: skip
            tasks.append({"id": t["id"], "sa": alias, "st": t["st"], "per": t["per"], "en": t["en"]})
        for store in scheduler.stores.values():
            if hasattr(store, "engine"):
                store.engine.dispose()
        self.emit({"op": "new", "tasks": tasks, "retry": RETRY * 1000})

    def reached(self, p, m):
        if m["at"] == "next":
            self.sa[p] = m["sa"]
        if m["at"] == "due":
            self.due[p] = m["sa"]
        if m["at"] in ("due", "sub", "put"):
            self.emit({**{k: v for k, v in m.items() if k != "at"}, "op": m["at"], "p": p})

    def leaving(self, p):
        if self.children[p].at == "next":
            self.emit({"op": "fin", "p": p, "sa": self.sa[p]})
        elif self.children[p].at == "due" and self.ops[p].get("fault") == "due":
            self.emit({"op": "fin", "p": p, "sa": self.due[p]})

    def call(self, p, o, lines):
        c = self.child(p)
        self.emit({"op": "call", "p": p, "now": o["now"]})
        self.ops[p] = o
        c.send({"o": o, "lines": lines, "times": []})
        c.at = "start"
        self.wait(p)

    def emit(self, e):
        if e["op"] == "ret":
            e = {"wait": 0, **e, "what": self.ops[e["p"]]["op"]}
        super().emit(e)

    def after(self, now):
        p = 99
        self.call(p, {"op": "round", "now": now}, False)
        while p in self.active() and not self.hung:
            if self.children[p].blocked:
                self.finish()
            else:
                self.go(p)
        self.kill(p, False)
        self.emit({"op": "quiet", "now": now})


def conf_of(r):
    stores = r.choice([["file"], ["file"], ["sql"], ["file", "file"], ["sql", "file"]])
    tasks = []
    for k in range(r.choice([1, 2, 3, 4])):
        per = r.choice([0, 2, 3, 5, 7])
        st = r.randrange(0, 12)
        tasks.append({"id": f"t{k}", "s": r.randrange(len(stores)), "st": st, "per": per, "en": st + per * r.choice([1, 3, 9])})
    return {"stores": stores, "tasks": tasks, "lock": r.choice(["lock-{store}", "lock-{store}", "lock"])}


def random_plan(seed):
    r = random.Random(seed)
    n = r.choice([2, 2, 3])
    todo = {}
    for p in range(1, n + 1):
        todo[str(p)] = []
        now = 0
        for _ in range(r.choice([1, 2, 3])):
            now += r.choice([0, 1, 4, 9])
            o = {"op": "round" if r.random() < 0.85 else "restart", "now": now}
            if r.random() < 0.1:
                o["fault"] = r.choice(["due", "next"])
            todo[str(p)].append(o)
    return {"seed": seed, "conf": conf_of(r), "todo": todo, "kill": r.choice([0, 0, 1, 2]), "lines": r.random() < 0.4,
            "mode": r.choice(["pct", "walk"]), "switch": r.choice([1, 2, 3])}  # fmt: skip


def run_random(stage, s):
    stage.begin(s["conf"])
    todo = {int(p): list(os_) for p, os_ in s["todo"].items()}
    schedule(stage, s, todo, 400 if s["lines"] else 15)
    if not stage.hung:
        stage.after(30)
    return True


def run_model(stage, s):
    """a behaviour of ShareMC; its runs are at the times 1, 2, ..."""
    r = random.Random(s.get("seed", 0))
    conf = {"stores": [r.choice(["file", "sql"])], "tasks": [{"id": "t", "s": 0, "st": 1, "per": 1, "en": s["runs"]}],
            "lock": r.choice(["lock-{store}", "lock"])}  # fmt: skip
    stage.begin(conf)
    now, exact = 1, True
    points = ("due", "sub", "put", "next")
    for p, step in s["h"]:
        if step == "tick":
            now += 1
            continue
        if step == "call":
            if p in stage.active():
                exact = False
                continue
            stage.call(p, {"op": "round", "now": now}, False)
            continue
        c = stage.children.get(p)
        if c is None:
            exact = False
        elif step == "kill":
            exact = exact and c.at is not None
            stage.kill(p)
        elif step == "lock":
            if c.at not in points and c.at is not None:
                stage.go(p)
        elif step in points:
            if c.at == step:
                stage.go(p)
            else:
                exact = False
        elif step == "ret" and c.at is not None:
            exact = False
            while c.at is not None and not c.blocked:
                stage.go(p)
    stage.finish()
    if not stage.hung:
        stage.after(now)
    return exact


def model_job(job):
    return file_jobs.run_all(job, job["scripts"], run_model, ShareStage, "ShareTrace", "D04")


def random_job(job):
    plans = [random_plan(f"share:{job['seed0'] + k}") for k in range(job["n"])]
    return file_jobs.run_all(job, plans, run_random, ShareStage, "ShareTrace", "D04")


def replay(job):
    def one(stage, s):
        return (run_random if "todo" in s else run_model)(stage, s)

    return file_jobs.run_all(job, job["scripts"], one, ShareStage, "ShareTrace", "D04")
