"""Drives the timeline, the audit trail and the log buffer of the dashboard, judged by RingTrace."""

from __future__ import annotations

import json
import logging
import random
import traceback
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import hist_jobs
import vclock
from hist_jobs import CLOCK, ERRORS, RETURNS, StubScheduler, none, overlap

UTC = timezone.utc
FILES = ("dashboard/events.py", "dashboard/audit.py", "logs/storage.py", "logs/handler.py")


def load():
    global ev, au, st, handler, logs_controller, events, constants
    hist_jobs.load()
    from asyncz.contrib.dashboard import audit as au, events as ev
    from asyncz.contrib.dashboard.controllers import logs as logs_controller
    from asyncz.contrib.dashboard.logs import handler, storage as st
    from asyncz.events import base as events, constants

    vclock.patch()

    class Record(logging.LogRecord):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            self.created = CLOCK.now(UTC).timestamp()

    logging.setLogRecordFactory(Record)
    logging.raiseExceptions = False


def us(dt):
    return round((dt.replace(tzinfo=UTC) if dt.tzinfo is None else dt - timedelta(0)).timestamp() * 1000) - round(vclock.EPOCH.timestamp() * 1000)


def det(d):
    return json.dumps(d, sort_keys=True, default=str)


class RingStage:
    """announcements, queries and what they should become"""

    def __init__(self, s):
        CLOCK.reset()
        self.s, self.kind, self.no = s, s["kind"], 0
        self.log = [{"op": "new", "kind": s["kind"], "max": s["max"]}]
        self.scheduler = StubScheduler()
        self.handler = None
        if self.kind == "events":
            self.storage = ev.MemorySchedulerEventStorage(maxlen=s["max"])
            for _ in range(s["listen"]):
                ev.install_scheduler_event_listener(self.scheduler, storage=self.storage)
        elif self.kind == "audit":
            self.storage = au.MemoryAuditTrailStorage(maxlen=s["max"])
            au.get_audit_storage(self.storage)
        else:
            self.storage = st.MemoryLogStorage(maxlen=s["max"])
            logs_controller.get_log_storage(self.storage)
            self.handler = handler.install_task_log_handler(self.storage, level=logging.DEBUG)
            logging.getLogger("asyncz").setLevel(logging.DEBUG)
            logging.getLogger("asyncz").propagate = False

    # ---- announcements: (function, entry)
    def add(self, o):
        self.no += 1
        entry = {"op": "add", "no": self.no}
        f, more = getattr(self, "add_" + self.kind)(o)
        return f, {**entry, **more}

    def add_events(self, o):
        code = getattr(constants, o["code"])
        entry = {"code": code, "at": CLOCK.ms, "alias": none(o["alias"]), "task": "~", "store": "~", "ident": "~", "det": det({})}
        hay = [o["alias"]]
        if o["sort"] == "scheduler":
            event = events.SchedulerEvent(code=code, alias=o["alias"])
            entry["ident"] = (self.scheduler.identity or "").strip() or "~"
        else:
            kw = {"code": code, "alias": o["alias"], "task_id": o["task"], "store": o["store"], "scheduler_identity": o["ident"]}
            entry.update(task=o["task"], store=none(o["store"]), ident=none(o["ident"]))
            if o["sort"] == "task":
                event = events.TaskEvent(**kw)
            elif o["sort"] == "sub":
                rts = [hist_jobs.run_time(x) for x in o["rts"]]
                event = events.TaskSubmissionEvent(**kw, scheduled_run_times=rts, source=o["src"], coalesced_run_count=o["cc"])
                details = {"source": o["src"] or "unknown", "submitted_run_count": len(rts), "coalesced_run_count": o["cc"],
                           "scheduled_run_times": [x.isoformat() for x in rts]}  # fmt: skip
            else:
                rt = hist_jobs.run_time(o["rts"][0])
                exc, ext, exm, exr = ERRORS[o["exc"]]
                ret, rets = RETURNS[o["ret"]]
                event = events.TaskExecutionEvent(**kw, scheduled_run_time=rt, return_value=ret, exception=exc)
                details = {"scheduled_run_time": rt.isoformat(), "return_value": None if rets == "~" else rets,
                           "exception_type": None if ext == "~" else ext, "exception_message": None if exm == "~" else exm}  # fmt: skip
            hay += [o["task"], o["store"], o["ident"]]
            if o["sort"] != "task":
                entry["det"] = det(details)
                hay.append(" ".join(f"{k} {v}" for k, v in details.items() if v is not None))
        if o["sort"] == "scheduler" and entry["ident"] != "~":
            hay.append(entry["ident"])
        entry["hay"] = " ".join(x or "" for x in hay).lower()
        if self.s["listen"]:
            return lambda: self.scheduler.dispatch_event(event), entry
        return lambda: self.storage.append(event, scheduler=self.scheduler), entry

    def add_audit(self, o):
        kw = {k: v for k, v in o["kw"].items() if v is not None}
        full = {"target_type": "task", "target_id": None, "message": None, "actor": "dashboard", "details": {}, "status": "succeeded", **kw}
        entry = {"action": full["action"], "status": full["status"], "ttype": full["target_type"], "target": none(full["target_id"]),
                 "msg": none(full["message"]), "actor": full["actor"], "at": CLOCK.ms, "det": det(full["details"])}  # fmt: skip
        entry["hay"] = " ".join(str(full[k] or "") for k in ("action", "status", "target_type", "target_id", "message", "actor")).lower()
        if o["how"] == "module":
            return lambda: au.record_audit_event(**kw), entry
        kw.setdefault("status", "succeeded")
        return lambda: self.storage.append(**kw), entry

    def add_logs(self, o):
        at = CLOCK.ms + o["dt"]
        ts = vclock.EPOCH + timedelta(milliseconds=at)
        extra = dict(o["extra"]) if o["extra"] is not None else None
        if o["tz"] == "naive":
            ts = ts.replace(tzinfo=None)
        elif o["tz"] != "utc":
            ts = ts.astimezone(ZoneInfo(o["tz"]))
        task = o["task"]
        if o["how"] in ("dict", "module", "bare"):
            d = {"ts": ts, "level": o["level"], "message": o["msg"], "logger": "my.log", "task_id": task, "extra": extra}
            if o["how"] == "bare":  # what is missing gets a default
                d = {"message": o["msg"]}
                at, task, extra = CLOCK.ms, None, None
            f = (lambda: logs_controller.append_log(d)) if o["how"] == "module" else (lambda: self.storage.append(d))
            level, logger = d.get("level", "INFO"), d.get("logger", "")
        elif o["how"] == "entry":
            e = st.LogEntry(ts=ts, level=o["level"], message=o["msg"], logger="my.log", task_id=task, extra=extra)
            f, level, logger = lambda: self.storage.append(e), o["level"], "my.log"
        else:  # through a logger
            level, logger, at = o["level"].upper(), "asyncz.jobs", CLOCK.ms
            number = getattr(logging, level)
            extra = dict(extra or {})
            if o["how"] == "task":
                adapter = handler.get_task_logger(task or "t0", "asyncz.jobs")
                given = {"extra": dict(extra)} if extra else {}
                extra.setdefault("task_id", task or "t0")
                task = extra["task_id"]
                if o["args"]:
                    f = lambda: adapter.log(number, o["msg"] + " %s", "arg", **given)
                else:
                    f = lambda: adapter.log(number, o["msg"], **given)
            else:
                key = o["key"]
                if task is not None:
                    extra[key] = task
                given = dict(extra) or None
                text, args = (o["msg"] + " %s", ("arg",)) if o["args"] else (o["msg"], ())
                f = lambda: logging.getLogger("asyncz.jobs").log(number, text, *args, extra=given)
                task = next((extra[k] for k in ("task_id", "job_id", "asyncz_task_id") if extra.get(k)), None)
            extra = extra or None
        msg = o["msg"] + (" arg" if o["how"] in ("task", "logger") and o["args"] else "")
        run = str(extra.get("run_id")) if extra else None
        return f, {"at": at, "level": level, "msg": msg, "logger": logger, "task": none(task), "run": none(run), "det": det(extra),
                   "upper": level.upper(), "hay": msg.lower()}  # fmt: skip

    # ---- what is seen
    def plain(self, r):
        if self.kind == "events":
            return {"code": r.code, "name": r.name, "cat": r.category, "at": us(r.observed_at), "alias": none(r.alias), "task": none(r.task_id),
                    "store": none(r.store), "ident": none(r.scheduler_identity), "det": det(r.details)}  # fmt: skip
        if self.kind == "audit":
            return {"action": r.action, "status": r.status, "ttype": r.target_type, "target": none(r.target_id), "msg": none(r.message),
                    "actor": r.actor, "at": us(r.created_at), "det": det(r.details)}  # fmt: skip
        assert r.ts.tzinfo is not None
        return {"at": us(r.ts), "level": r.level, "msg": r.message, "logger": r.logger, "task": none(r.task_id), "det": det(r.extra)}

    def query(self, o):
        kw, f = {}, {}
        for k, v in o["f"].items():
            if k in ("since", "until"):
                dt = vclock.EPOCH + timedelta(milliseconds=v)
                kw[k] = dt.replace(tzinfo=None) if o["naive"] else dt.astimezone(ZoneInfo(o["zone"]))
                f[k] = v
                continue
            kw[k] = v
            if v and (k in ("task_id", "run_id") or v.strip()):
                f[{"category": "cat", "task_id": "task", "run_id": "run", "level": "upper"}.get(k, k)] = (
                    v.upper() if k == "level" else v if k in ("task_id", "run_id") else v.strip().lower()
                )
        if o["limit"] != 200:
            kw["limit"] = o["limit"]
        return lambda: [self.plain(r) for r in self.storage.query(**kw)], {"op": "query", "f": f or {"all": 1}, "limit": o["limit"]}

    def prepare(self, o):
        if o["op"] == "add":
            f, entry = self.add(o)
            return lambda: (f(), None)[1], entry
        if o["op"] == "clear":
            return self.storage.clear, {"op": "clear"}
        if o["op"] == "sum":
            if self.kind == "logs":
                return lambda: None, {"op": "none"}
            return self.storage.summary, {"op": "sum"}
        return self.query(o)

    def do(self, o):
        if o["op"] == "tick":
            CLOCK.us += o["ms"] * 1000
        elif o["op"] == "ident":
            self.scheduler.identity, self.scheduler.how = o["ident"], o["how"]
        elif o["op"] == "par":
            fa, a = self.prepare(o["a"])
            fb, b = self.prepare(o["b"])
            out, self.lines = overlap(fa, o["k"], fb, FILES)
            if "a_err" in out or "b_err" in out:
                self.log.append({"op": "err", "d": (out.get("a_err") or out.get("b_err"))[-600:]})
                return
            for e, r in ((a, out["a"]), (b, out["b"])):
                if e["op"] in ("query", "sum"):
                    e["res"] = r
            self.log.append({"op": "par", "a": a, "b": b})
        else:
            try:
                f, entry = self.prepare(o)
                r = f()
                if entry["op"] in ("query", "sum"):
                    entry["res"] = r
            except Exception:
                entry = {"op": "err", "d": traceback.format_exc()[-600:]}
            self.log.append(entry)

    def dump(self):
        self.do({"op": "query", "f": {}, "limit": 100000})
        self.do({"op": "sum"})


# ------------------------------------------------------------------ random histories
TASKS = ["alpha", "Beta", "zulu|x", "lima run"]
SCHED_CODES = ["SCHEDULER_STARTED", "SCHEDULER_SHUTDOWN", "SCHEDULER_PAUSED", "SCHEDULER_RESUMED", "EXECUTOR_ADDED", "EXECUTOR_REMOVED", "STORE_ADDED", "STORE_REMOVED", "ALL_TASKS_REMOVED"]  # fmt: skip
NEEDLES = {
    "events": ["alph", " ALPHA ", "started", "sched", "executor", "zulu|", "node-", "bad luck", "valueerror", "manual", "run_times", "zzz", "task", "lima r", "k a", "unknown"],
    "audit": ["alph", "RUN", "paus", "fail", "succeeded", "nope", "all good", "operator", "zulu|", "sk l", "task", "zzz"],
    "logs": ["hello", "WORLD", " lo w", "zzz", "kö", "arg", "%"],
}  # fmt: skip


def random_op(r, s):
    x = r.random()
    if x < 0.6:
        return random_add(r, s)
    if x < 0.63:
        return {"op": "clear"}
    if x < 0.7:
        return {"op": "sum"}
    f = {}
    if s["kind"] == "events":
        if r.random() < 0.35:
            f["category"] = r.choice(["scheduler", "task", "Executor", " store ", "nope", ""])
        if r.random() < 0.3:
            f["name"] = r.choice(["task.submitted", "task.executed", "scheduler.started", "TASK.ERROR", "task.all_removed", "executor.added"])
        if r.random() < 0.3:
            f["task_id"] = r.choice([*TASKS, "", "beta"])
    elif s["kind"] == "audit":
        if r.random() < 0.35:
            f["action"] = r.choice(["run", "pause", "Run", "task.remove", "x", ""])
        if r.random() < 0.35:
            f["status"] = r.choice(["succeeded", "failed", "warning", " FAILED ", "", "y"])
    else:
        if r.random() < 0.3:
            f["task_id"] = r.choice([*TASKS, "", "beta"])
        if r.random() < 0.2:
            f["run_id"] = r.choice(["r1", "r2", "None", "7", ""])
        if r.random() < 0.3:
            f["level"] = r.choice(["INFO", "info", "Error", "DEBUG", "", "custom"])
        if r.random() < 0.3:
            f["since"] = r.choice([0, 5, 1000, 1005, 3000, -5000])
        if r.random() < 0.3:
            f["until"] = r.choice([0, 5, 1000, 1005, 3000, 9000])
    if r.random() < 0.35:
        f["q"] = r.choice(NEEDLES[s["kind"]])
    return {"op": "query", "f": f, "limit": r.choice([200, 200, 200, 1, 2, 3, 0, -1]), "naive": r.random() < 0.3,
            "zone": r.choice(["UTC", "Europe/Berlin", "Asia/Kolkata"])}  # fmt: skip


def random_add(r, s):
    if s["kind"] == "events":
        sort = r.choice(["scheduler", "task", "sub", "exe"])
        code = {"scheduler": SCHED_CODES, "task": ["TASK_ADDED", "TASK_REMOVED", "TASK_MODIFIED"], "sub": ["TASK_SUBMITTED", "TASK_MAX_INSTANCES"],
                "exe": ["TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED"]}[sort]  # fmt: skip
        return {"op": "add", "sort": sort, "code": r.choice(code), "alias": r.choice([None, "default", "Quick"]), "task": r.choice(TASKS),
                "store": r.choice([None, "default", "Other"]), "ident": r.choice([None, "node-1", "Node-2"]), "rts": [str(r.randrange(9)) for _ in range(r.randint(1, 3))],
                "src": r.choice([None, "manual", "scheduled"]), "cc": r.choice([0, 2]), "exc": r.choice(list(ERRORS)), "ret": r.choice(list(RETURNS))}  # fmt: skip
    if s["kind"] == "audit":
        kw = {"action": r.choice(["run", "pause", "task.remove"]), "status": r.choice(["succeeded", "failed", "warning", "other", None]),
              "target_type": r.choice([None, "task", "logs"]), "target_id": r.choice([None, *TASKS]), "message": r.choice([None, "", "All good", "nope: ünï"]),
              "actor": r.choice([None, "Operator"]), "details": r.choice([None, {}, {"count": 2}])}  # fmt: skip
        return {"op": "add", "kw": kw, "how": r.choice(["module", "storage"])}
    msg = r.choice(["Hello World", "hello", "", "100%", "KÖLN", "x"])
    return {"op": "add", "how": r.choice(["dict", "module", "entry", "entry", "bare", "task", "logger"]), "dt": r.choice([0, 0, -7, 5]),
            "tz": r.choice(["utc", "utc", "naive", "Europe/Berlin"]), "level": r.choice(["INFO", "ERROR", "debug", "Warning"]),
            "msg": msg, "task": r.choice([None, *TASKS]), "args": "%" not in msg and r.random() < 0.3,
            "extra": r.choice([None, None, {}, {"run_id": "r1"}, {"run_id": "r2", "k": 1}, {"run_id": 7}, {"k": 1}]),
            "key": r.choice(["task_id", "job_id", "asyncz_task_id"])}  # fmt: skip


def random_script(seed):
    r = random.Random(seed)
    s = {"seed": seed, "kind": r.choice(["events", "audit", "logs"]), "max": r.choice([1, 2, 3, 5, 100]), "listen": r.choice([0, 1, 1, 2])}
    ops = []
    for _ in range(r.randint(4, 26)):
        if r.random() < 0.3:
            ops.append({"op": "tick", "ms": r.choice([1, 5, 1000])})
        if r.random() < 0.1:
            ops.append({"op": "ident", "ident": r.choice([None, " ", "node-1", "Node-2"]), "how": r.choice(["info", "attr"])})
        ops.append(random_op(r, s))
    s["ops"] = ops
    return s


def every_line(s, a, b, limit=200):
    out = []
    k = 1
    while k < limit:
        t = {**s, "ops": [*s["ops"], {"op": "par", "a": a, "b": b, "k": k}]}
        stage = run(t)
        out.append((t, stage.log))
        if stage.lines < k:
            break
        k += 1
    return out


def run(t):
    stage = RingStage(t)
    stage.lines = 0
    for o in t["ops"]:
        stage.do(o)
    stage.dump()
    return stage


def race_script(seed):
    r = random.Random("race:" + seed)
    s = random_script(seed)
    s["max"] = r.choice([1, 2, 3, 100])
    s["ops"] = [random_op(r, s) for _ in range(r.randint(0, 4))]
    while True:
        a, b = random_op(r, s), random_op(r, s)
        if {a["op"], b["op"]} & {"add", "clear"}:
            return s, a, b


def gather(job, plays, exact=0):
    log, segs = [], []
    for t, entries in plays:
        log += [{**e, "seg": len(segs)} for e in entries]
        segs.append(t)
    return hist_jobs.judge(job, log, segs, "RingTrace", exact)


def random_job(job):
    load()
    scripts = [random_script(f"ring:{job['seed0'] + k}") for k in range(job["n"])]
    return gather(job, [(s, run(s).log) for s in scripts])


def race_job(job):
    load()
    plays = []
    for k in range(job["n"]):
        plays += every_line(*race_script(f"ring:{job['seed0'] + k}"))
    return gather(job, plays)


SORTS = {
    "events": [{"sort": "scheduler", "code": "SCHEDULER_STARTED"}, {"sort": "exe", "code": "TASK_EXECUTED"}],
    "audit": [{"kw": {"action": "run", "status": "succeeded"}, "how": "module"}, {"kw": {"action": "pause", "status": "failed", "target_id": "t"}, "how": "storage"}],
    "logs": [{"how": "dict", "task": None, "level": "info", "extra": None}, {"how": "entry", "task": "t", "level": "error", "extra": {"run_id": "r1"}}],
}  # fmt: skip
FILTERS = {
    "events": [{}, {"category": "task"}, {"name": "scheduler.started"}, {"task_id": "t", "category": "task"}],
    "audit": [{}, {"status": "failed"}, {"action": "run"}, {"status": "failed", "action": "run"}],
    "logs": [{}, {"task_id": "t"}, {"level": "INFO"}, {"since": 0, "until": 0}],
}


def model_job(job):
    load()
    plays = []
    for n, b in enumerate(job["scripts"]):
        r = random.Random(n)

        def op(sort):
            if sort == 0:
                return {"op": "clear"}
            base = {"op": "add", "alias": None, "task": "t", "store": None, "ident": None, "rts": ["1"], "exc": "none", "ret": "int", "dt": 0,
                    "tz": "utc", "msg": "m", "args": False, "key": "task_id"}  # fmt: skip
            return {**base, **SORTS[b["kind"]][sort - 1]}

        s = {"seed": n, "kind": b["kind"], "max": 2, "listen": 1, "ops": []}
        par = None
        for step in b["h"]:
            if len(step) == 2:
                par = [op(x) for x in step]
                break
            s["ops"].append(op(step[0]))
            s["ops"] += [{"op": "query", "f": f, "limit": r.choice([0, 1, 2, 200]), "naive": False, "zone": "UTC"} for f in FILTERS[b["kind"]]]
            if r.random() < 0.4:
                s["ops"].append({"op": "tick", "ms": 1})
        plays += every_line(s, *par) if par else [(s, run(s).log)]
    return gather(job, plays, exact=len(job["scripts"]))


def replay(job):
    load()
    return gather(job, [(s, run(s).log) for s in job["scripts"]])
