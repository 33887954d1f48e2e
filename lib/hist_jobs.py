"""Drives the run history of the dashboard, judged by HistTrace."""

from __future__ import annotations

import os
import random
import sys
import threading
import traceback
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import common
import vclock

UTC = timezone.utc
CLOCK = vclock.CLOCK


def load():
    global history, events, constants, NativeAsyncIOScheduler
    vclock.import_core()
    from asyncz.contrib.dashboard import history
    from asyncz.events import base as events, constants
    from asyncz.schedulers.asyncio import NativeAsyncIOScheduler

    vclock.patch()


# ------------------------------------------------------------------ two operations at once
def overlap(first, k, second, files):
    """Run `first`; before its k-th line in `files`, run `second` in another thread (as far as it gets)."""
    count = 0
    out = {}
    thread = None

    def run():
        try:
            out["b"] = second()
        except BaseException:
            out["b_err"] = traceback.format_exc()

    def local(frame, event, arg):
        nonlocal count, thread
        if event == "line":
            count += 1
            if count == k:
                thread = threading.Thread(target=run, daemon=True)
                thread.start()
                thread.join(0.02)
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.endswith(files) else None

    sys.settrace(trace)
    try:
        out["a"] = first()
    except BaseException:
        out["a_err"] = traceback.format_exc()
    finally:
        sys.settrace(None)
    if thread is None:
        thread = threading.Thread(target=run, daemon=True)
        thread.start()
    thread.join(30)
    if thread.is_alive():
        out["b_err"] = "does not come to its end"
    return out, count


# ------------------------------------------------------------------ the stage
class Info:
    def __init__(self, meta):
        self.name, self.callable_name, self.callable_reference, self.executor = meta["name"], meta["cname"], meta["cref"], meta["exec"]


class StubTask:
    def __init__(self, meta):
        self.meta = meta
        self.name, self.executor = meta["name"], meta["exec"]

    def snapshot(self):
        if self.meta["broken"]:
            raise RuntimeError("no snapshot")
        return Info(self.meta)


class StubScheduler:
    """what the history asks of a scheduler"""

    def __init__(self):
        self.tasks, self.identity, self.listeners, self.how = {}, None, [], "info"

    def get_task(self, task_id, store=None):
        task = self.tasks[task_id]
        if task is None:
            return None
        return task

    def get_scheduler_info(self):
        if self.how == "attr":
            raise RuntimeError("not available")
        return self

    def add_listener(self, callback, mask=None):
        self.listeners.append((callback, mask))

    def remove_listener(self, callback):
        self.listeners = [x for x in self.listeners if x[0] is not callback]

    def dispatch_event(self, event):
        for callback, mask in list(self.listeners):
            if event.code & mask:
                callback(event)


class Weird:
    def __repr__(self):
        raise ValueError("no repr")

    __str__ = __repr__


class MyError(Exception):
    pass


def none(x):
    return "~" if x is None else x


def ms(dt):
    return -1 if dt is None else round((dt - vclock.EPOCH) / timedelta(milliseconds=1))


def when(value):
    if value is None:
        return "~"
    if isinstance(value, datetime):
        if value.tzinfo is None:
            value = value.replace(tzinfo=UTC)
        return value.astimezone(UTC).isoformat()
    return str(value)


def plain(r):
    return {
        "task": r.task_id, "store": none(r.store), "rt": when(r.scheduled_run_time), "name": r.task_name or "~",
        "call": r.callable_reference or "~", "exec": r.executor or "~", "ident": r.scheduler_identity or "~",
        "cc": r.coalesced_run_count, "src": r.source, "st": r.status, "sub": ms(r.submitted_at), "fin": ms(r.finished_at),
        "ret": none(r.return_value), "ext": none(r.exception_type), "exm": none(r.exception_message),
        "exr": none(r.exception), "tb": none(r.traceback), "cre": ms(r.created_at), "upd": ms(r.updated_at),
    }  # fmt: skip


RETURNS = {"none": (None, "~"), "int": (0, "0"), "str": ("", "''"), "long": ("x" * 600, ("'" + "x" * 600)[:497] + "..."), "weird": (Weird(), "<Weird>")}
ERRORS = {
    "none": (None, "~", "~", "~"),
    "val": (ValueError("bad luck"), "ValueError", "bad luck", "ValueError('bad luck')"),
    "mine": (MyError(), "hist_jobs.MyError", "", "MyError()"),
}  # fmt: skip
CODES = {"succeeded": "TASK_EXECUTED", "failed": "TASK_ERROR", "missed": "TASK_MISSED"}


class HistStage:
    def __init__(self, s):
        CLOCK.reset()
        self.s = s
        self.storage = history.MemoryRunHistoryStorage(maxlen=s["max"])
        self.log = [{"op": "new", "max": s["max"], "low": {x: x.lower() for x in WORDS if x != x.lower()}}]
        self.ids = {}
        self.real = s["real"]
        if self.real:
            self.scheduler = NativeAsyncIOScheduler()
            self.scheduler.setup({})
            name = str(self.scheduler.get_scheduler_info().identity or "")
            self.log[0]["low"][name] = name.lower()
        else:
            self.scheduler = StubScheduler()
        self.known = {}
        if s["listen"]:
            for _ in range(s["listen"]):
                history.install_run_history_listener(self.scheduler, storage=self.storage)

    # an announcement
    def meta(self, task, store):
        m = self.s["tasks"].get(task)
        if m is None or not self.known.get(task) or (self.real and store not in (None, "default")):
            return {"name": "~", "call": "~", "exec": "~"}
        if self.real:
            return {"name": m["name"] or task_name(), "call": "hbodies:sync_body", "exec": "default"}
        if m["broken"]:
            return {"name": m["name"] or "~", "call": "~", "exec": m["exec"] or "~"}
        return {"name": m["name"] or "~", "call": m["cref"] or m["cname"] or "~", "exec": m["exec"] or "~"}

    def identity(self, o):
        if o["ident"]:
            return o["ident"]
        if self.real:
            return str(self.scheduler.get_scheduler_info().identity or "").strip() or "~"
        return none(str(self.scheduler.identity or "").strip() or None)

    def event(self, o):
        """the event and the entry of the trace"""
        entry = {"op": o["op"], "task": o["task"], "store": none(o["store"]), "now": CLOCK.ms, "ident": self.identity(o), **self.meta(o["task"], o["store"])}
        if o["op"] == "sub":
            code = constants.TASK_MAX_INSTANCES if o["full"] else constants.TASK_SUBMITTED
            event = events.TaskSubmissionEvent(
                code=code, task_id=o["task"], store=o["store"], scheduled_run_times=[run_time(x) for x in o["rts"]], source=o["src"],
                coalesced_run_count=o["cc"], scheduler_identity=o["ident"],
            )  # fmt: skip
            entry.update(rts=[when(run_time(x)) for x in o["rts"]], src=o["src"] or "scheduled", cc=o["cc"], full=o["full"])
        else:
            exc, ext, exm, exr = ERRORS[o["exc"]]
            ret, rets = RETURNS[o["ret"]]
            event = events.TaskExecutionEvent(
                code=getattr(constants, CODES[o["st"]]), task_id=o["task"], store=o["store"], scheduled_run_time=run_time(o["rt"]),
                return_value=ret, exception=exc, traceback=o["tb"], scheduler_identity=o["ident"],
            )  # fmt: skip
            entry.update(rt=when(run_time(o["rt"])), st=o["st"], ret=rets, ext=ext, exm=exm, exr=exr, tb=none(o["tb"]))
        return event, entry

    def prepare(self, o):
        """(function, trace entry, what the result becomes in the entry)"""
        st = self.storage
        if o["op"] in ("sub", "exe"):
            event, entry = self.event(o)
            if self.s["listen"]:
                return lambda: self.scheduler.dispatch_event(event), entry, None
            record = st.record_submission if o["op"] == "sub" else st.record_execution
            return lambda: record(event, scheduler=self.scheduler), entry, None
        if o["op"] == "clear":
            return st.clear, {"op": "clear"}, None
        if o["op"] == "sum":
            return st.summary, {"op": "sum"}, lambda r: r
        if o["op"] == "get":
            key = next((k for k, v in self.ids.items() if k[2] == o["rt"] and k[0] == o["task"]), None)
            if key is None:
                entry = {"op": "get", "task": "", "store": "", "rt": ""}
                return lambda: st.get("0" * 20), entry, lambda r: [] if r is None else [plain(r)]
            entry = {"op": "get", "task": key[0], "store": key[1], "rt": key[2]}
            run_id = self.ids[key]
            return lambda: st.get(run_id), entry, lambda r: [] if r is None else [plain(r)]
        if o["op"] == "latest":
            entry = {"op": "query", "task": o["task"], "st": "", "src": "", "q": "", "limit": 1}
            return lambda: st.latest_for_task(o["task"]), entry, lambda r: [] if r is None else [plain(r)]
        if o["op"] == "find":
            key = next(iter(self.ids), None)
            entry = {"op": "get", "task": key[0] if key else "", "store": key[1] if key else "", "rt": key[2] if key else ""}
            q = self.ids[key] if key else "z" * 20
            return lambda: st.query(q=q), entry, lambda r: [plain(x) for x in r]
        entry = {"op": "query", "task": none(o["task"]), "st": (o["st"] or "").strip().lower(), "src": (o["src"] or "").strip().lower(),
                 "q": (o["q"] or "").strip().lower(), "limit": o["limit"]}  # fmt: skip
        kw = {"task_id": o["task"], "status": o["st"], "source": o["src"], "q": o["q"], "limit": o["limit"]}
        if o["limit"] == 200:
            kw.pop("limit")
        return lambda: st.query(**{k: v for k, v in kw.items() if v is not None}), entry, lambda r: [plain(x) for x in r]

    def do(self, o):
        if o["op"] == "tick":
            CLOCK.us += o["ms"] * 1000
        elif o["op"] == "know":
            self.know(o["task"])
        elif o["op"] == "ident":
            if not self.real:
                self.scheduler.identity, self.scheduler.how = o["ident"], o["how"]
        elif o["op"] == "par":
            self.dump()
            fa, a, ra = self.prepare(o["a"])
            fb, b, rb = self.prepare(o["b"])
            out, self.lines = overlap(lambda: ra(fa()) if ra else fa(), o["k"], lambda: rb(fb()) if rb else fb(), "history.py")
            if "a_err" in out or "b_err" in out:
                self.log.append({"op": "err", "d": (out.get("a_err") or out.get("b_err"))[-600:]})
                return
            if ra:
                a["res"] = out["a"]
            if rb:
                b["res"] = out["b"]
            self.log.append({"op": "par", "a": a, "b": b})
        else:
            if o["op"] in ("get", "find"):
                self.dump()
            f, entry, conv = self.prepare(o)
            try:
                r = f()
                if conv:
                    entry["res"] = conv(r)
            except Exception:
                entry = {"op": "err", "d": traceback.format_exc()[-600:]}
            self.log.append(entry)

    def know(self, task):
        """from now on the scheduler knows the task"""
        m = self.s["tasks"].get(task)
        if m is None or self.known.get(task):
            return
        self.known[task] = True
        if self.real:
            import hbodies

            self.scheduler.add_task(hbodies.sync_body, "interval", hours=9, args=("k",), id=task, name=m["name"] or None)
        else:
            self.scheduler.tasks[task] = StubTask(m)

    def dump(self):
        rows = self.storage.query(limit=100000)
        self.ids = {(r.task_id, none(r.store), when(r.scheduled_run_time)): r.run_id for r in rows}
        self.log.append({"op": "dump", "res": [plain(r) for r in rows], "ids": [r.run_id for r in rows]})


def task_name():
    return "sync_body"


BASE = datetime(2031, 10, 26, 0, 30, tzinfo=UTC)


def run_time(x):
    """number of an instant and a way to write it"""
    n, how = (x + ":0").split(":")[:2] if ":" in x else (x, "0")
    dt = BASE + timedelta(minutes=30 * int(n))
    if how == "1":
        return dt.astimezone(ZoneInfo("Europe/Berlin"))
    if how == "2":
        return dt.replace(tzinfo=None)
    if how == "3":
        return dt.astimezone(timezone(timedelta(hours=-9, minutes=-30)))
    return dt


TASKS = ["alpha", "Beta", "zulu|x", "zulu", "gamma run"]
STORES = [None, "default", "x|y", "x"]
NAMES = [None, "", "Nightly Job", "alpha", "Ünï"]
CALLS = [None, "", "pkg.mod:work", "My.Call"]
IDENTS = [None, None, "node-1", "Node-2"]
WORDS = [x for x in [*TASKS, *NAMES, *CALLS, *IDENTS, "hbodies:sync_body", "sync_body"] if x]
NEEDLES = ["alph", "ALPHA", " nightly job ", "my.call", "zulu|", "coalesced", "running", "succ", "x_instances", "manual", "sched", "node-",
           "zzz", "ün", "y_body", "un", "l run", "a Ni", "unknown"]  # fmt: skip


def random_op(r, s, quiet=False):
    task = r.choice(s["names"])
    store = r.choice(s["stores"])
    rt = str(r.randrange(s["runs"])) + (":" + r.choice("0123") if r.random() < 0.3 else "")
    x = r.random()
    if x < 0.3:
        n = r.choice([1, 1, 1, 2, 3])
        rts = r.sample([str(k) for k in range(s["runs"])], min(n, s["runs"]))
        return {"op": "sub", "task": task, "store": store, "rts": rts if n > 1 else [rt], "src": r.choice([None, "manual", "scheduled", "scheduled"]),
                "cc": r.choice([0, 0, 0, 2, 1]), "full": r.random() < 0.2, "ident": r.choice(IDENTS)}  # fmt: skip
    if x < 0.6:
        st = r.choice(list(CODES))
        return {"op": "exe", "task": task, "store": store, "rt": rt, "st": st, "ret": r.choice(list(RETURNS)) if st == "succeeded" else "none",
                "exc": r.choice(list(ERRORS)) if st == "failed" else "none", "tb": r.choice([None, "Traceback\nx"]) if st == "failed" else None,
                "ident": r.choice(IDENTS)}  # fmt: skip
    if x < 0.63:
        return {"op": "clear"}
    if x < 0.7:
        return {"op": "sum"}
    if x < 0.76:
        return {"op": "get", "task": task, "rt": when(run_time(rt))}
    if x < 0.8:
        return {"op": "latest", "task": task}
    if x < 0.82:
        return {"op": "find"}
    return {"op": "query", "task": task if r.random() < 0.4 else None,
            "st": r.choice([None, None, "", "running", "succeeded", " Failed ", "missed", "max_instances", "nope"]),
            "src": r.choice([None, None, None, "manual", "Scheduled", "unknown"]),
            "q": r.choice(NEEDLES) if r.random() < 0.4 else None, "limit": r.choice([200, 200, 200, 1, 2, 3, 0, -1])}  # fmt: skip


def random_script(seed):
    r = random.Random(seed)
    s = {"seed": seed, "max": r.choice([1, 2, 3, 5, 100]), "real": r.random() < 0.2, "listen": r.choice([0, 1, 1, 2]),
         "names": r.sample(TASKS, r.choice([1, 2, 3])), "stores": r.sample(STORES, r.choice([1, 1, 2])), "runs": r.choice([1, 2, 3, 5])}  # fmt: skip
    if r.random() < 0.15:
        s["names"], s["stores"] = ["zulu|x", "zulu"], ["x|y", "y", "x", None]
    s["tasks"] = {t: {"name": r.choice(NAMES), "cname": r.choice(CALLS), "cref": r.choice(CALLS), "exec": r.choice([None, "default", "pool"]),
                      "broken": r.random() < 0.15} for t in s["names"] if r.random() < 0.8}  # fmt: skip
    ops = []
    for _ in range(r.randint(4, 26)):
        x = r.random()
        if x < 0.2:
            ops.append({"op": "tick", "ms": r.choice([1, 5, 1000])})
        if x > 0.9:
            ops.append(r.choice([{"op": "know", "task": r.choice(s["names"])}, {"op": "ident", "ident": r.choice([None, " ", "node-1", "Node-2"]), "how": r.choice(["info", "attr"])}]))
        ops.append(random_op(r, s))
    s["ops"] = ops
    return s


def race_script(seed):
    """a short history, then two operations at once"""
    r = random.Random("race:" + seed)
    s = random_script(seed)
    s["runs"] = min(s["runs"], 2)
    s["names"] = s["names"][:1]
    s["stores"] = s["stores"][:1]
    s["max"] = r.choice([1, 2, 3, 100])
    s["ops"] = [random_op(r, s) for _ in range(r.randint(0, 3))]
    while True:
        a, b = random_op(r, s), random_op(r, s)
        if a["op"] in ("sub", "exe", "clear") or b["op"] in ("sub", "exe", "clear"):
            break
    return s, a, b


# ------------------------------------------------------------------ jobs
def play(scripts):
    log = []
    segs = []
    for seg, s in enumerate(scripts):
        stage = HistStage(s)
        for o in s["ops"]:
            stage.do(o)
        stage.dump()
        for e in stage.log:
            log.append({**e, "seg": seg})
        segs.append(s)
    return log, segs


def judge(job, log, segs, module="HistTrace", exact=0):
    path = os.path.join(job["dir"], "trace.ndjson")
    common.write_trace(path, log)
    bads, stats = common.validate(module, path)
    by = {}
    for e in log:
        by.setdefault(e["seg"], []).append(e)
    for b in bads:
        b["script"] = segs[b["seg"]]
        b["history"] = by[b["seg"]][-30:]
    sample = {"history": [str(e)[:300] for e in by[len(segs) // 2][:8]]} if segs else None
    return {"bads": bads[:20], "stats": stats, "segs": len(segs), "entries": len(log), "exact": exact, "sample": sample}


def model_script(h, seed, k=1):
    """a behaviour of HistMC as a script"""
    r = random.Random(seed)
    base = {"op": "", "task": "alpha", "store": "default", "ident": None}

    def op(o):
        if o["op"] == "sub":
            return {**base, "op": "sub", "rts": o["rts"], "src": "scheduled", "cc": 0, "full": o["full"]}
        if o["op"] == "exe":
            return {**base, "op": "exe", "rt": o["rt"], "st": o["st"], "ret": "int" if o["st"] == "succeeded" else "none",
                    "exc": "val" if o["st"] == "failed" else "none", "tb": None}  # fmt: skip
        return {"op": "clear"}

    ops = []
    for step in h:
        if len(step) == 2:
            ops.append({"op": "par", "a": op(step[0]), "b": op(step[1]), "k": k})
        else:
            ops += [op(step[0]), {"op": "sum"}, {"op": "query", "task": None, "st": None, "src": None, "q": None, "limit": 200}]
        if r.random() < 0.5:
            ops.append({"op": "tick", "ms": 5})
    return {"seed": str(seed), "max": 2, "real": False, "listen": r.choice([0, 1]), "names": ["alpha"], "stores": ["default"], "runs": 3,
            "tasks": {}, "ops": ops}  # fmt: skip


def every_line(s, a, b, limit=200):
    """the script with the second operation before each line of the first"""
    out = []
    k = 1
    while k < limit:
        t = {**s, "ops": [*s["ops"], {"op": "par", "a": a, "b": b, "k": k}]}
        stage = HistStage(t)
        for o in t["ops"]:
            stage.do(o)
        stage.dump()
        out.append((t, stage.log))
        if stage.lines < k:
            break
        k += 1
    return out


def model_job(job):
    load()
    log, segs = [], []
    for n, h in enumerate(job["scripts"]):
        if len(h[-1]) == 2:
            s = model_script(h, n)
            par = next(o for o in s["ops"] if o["op"] == "par")
            s["ops"] = s["ops"][: s["ops"].index(par)]
            for t, entries in every_line(s, par["a"], par["b"]):
                log += [{**e, "seg": len(segs)} for e in entries]
                segs.append(t)
        else:
            stage = HistStage(t := model_script(h, n))
            for o in t["ops"]:
                stage.do(o)
            stage.dump()
            log += [{**e, "seg": len(segs)} for e in stage.log]
            segs.append(t)
    return judge(job, log, segs, exact=len(job["scripts"]))


def race_job(job):
    load()
    log, segs = [], []
    for n in range(job["n"]):
        s, a, b = race_script(f"hist:{job['seed0'] + n}")
        for t, entries in every_line(s, a, b):
            log += [{**e, "seg": len(segs)} for e in entries]
            segs.append(t)
    return judge(job, log, segs)


def random_job(job):
    load()
    log, segs = play([random_script(f"hist:{job['seed0'] + k}") for k in range(job["n"])])
    return judge(job, log, segs)


def replay(job):
    load()
    log, segs = play(job["scripts"])
    return judge(job, log, segs)
