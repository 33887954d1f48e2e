"""The log of runs, judged by RunLogTrace."""

from __future__ import annotations

import random
import traceback
from datetime import timedelta, timezone

import hist_jobs
import vclock
from hist_jobs import CLOCK, ms, none, when

UTC = timezone.utc
LMAX = 100


def load():
    global storage_mod
    hist_jobs.load()
    from asyncz.contrib.dashboard.logs import storage as storage_mod


class Stage(hist_jobs.HistStage):
    def __init__(self, s):
        super().__init__({**s, "listen": 0})
        self.s = s
        self.log[0] = {"op": "new", "max": s["max"], "lmax": s["lmax"]}
        self.lines = storage_mod.MemoryLogStorage(maxlen=s["lmax"])
        self.keys = {}
        self.runs = {}
        for _ in range(s["listen"]):
            hist_jobs.history.install_run_history_listener(self.scheduler, storage=self.storage, log_storage=self.lines)

    def learn(self):
        for r in self.storage.query(limit=100000):
            key = [r.task_id, none(r.store), when(r.scheduled_run_time)]
            self.keys[r.run_id] = key
            self.runs[tuple(key)] = r.run_id

    def seen(self, rows):
        out = []
        for e in rows:
            run = (e.extra or {}).get("run_id")
            out.append({"ts": ms(e.ts), "lv": e.level, "lg": e.logger, "msg": e.message, "task": none(e.task_id), "run": self.keys.get(run, [str(run)]) if run else []})
        return out

    def do(self, o):
        try:
            self.do1(o)
        except Exception:
            self.log.append({"op": "err", "d": traceback.format_exc()[-600:]})

    def do1(self, o):
        op = o["op"]
        if op in ("tick", "know", "ident"):
            super().do(o)
        elif op in ("sub", "exe"):
            event, entry = self.event(o)
            if self.s["listen"]:
                self.scheduler.dispatch_event(event)
            else:
                record = self.storage.record_submission if op == "sub" else self.storage.record_execution
                record(event, scheduler=self.scheduler, log_storage=self.lines)
            self.log.append(entry)
            self.learn()
        elif op == "line":
            run = list(self.runs)[o["run"] % len(self.runs)] if o["run"] is not None and self.runs else None
            ts = vclock.EPOCH + timedelta(milliseconds=CLOCK.ms + o["off"])
            line = {"ts": CLOCK.ms + o["off"], "lv": o["lv"], "lg": o["lg"], "msg": o["msg"], "task": none(o["task"]), "run": list(run) if run else []}
            if o["how"] == "naive":
                ts = ts.replace(tzinfo=None)
            elif o["how"] == "zone":
                ts = ts.astimezone(timezone(timedelta(hours=5)))
            extra = {"run_id": self.runs[run]} if run else o["extra"]
            d = {"ts": ts, "level": o["lv"], "message": o["msg"], "logger": o["lg"], "task_id": o["task"], "extra": extra}
            self.lines.append(storage_mod.LogEntry(**d) if o["how"] == "entry" else d)
            self.log.append({"op": "line", "line": line})
        elif op == "wipe":
            self.lines.clear()
            self.log.append({"op": "wipe"})
        elif op == "logs":
            if not self.runs:
                return
            run = list(self.runs)[o["run"] % len(self.runs)]
            record = self.storage.get(self.runs[run])
            kw = {} if o["limit"] == 200 else {"limit": o["limit"]}
            rows = hist_jobs.history.logs_for_run(record, self.lines, **kw)
            self.log.append({"op": "logs", "run": list(run), "limit": o["limit"], "res": self.seen(rows)})
        else:
            self.log.append({"op": "all", "res": self.seen(self.lines.query(limit=100000))})


MSGS = ["work", "work", "half way", "Task run submitted for alpha."]


def line_op(r, s):
    return {"op": "line", "task": r.choice([*s["names"], *s["names"], None]), "run": r.choice([None, None, None, 0, 1, 2]), "off": r.choice([0, 0, 0, -1, -5000, 5000, -5001, 5001, 1]),
            "lv": r.choice(["INFO", "ERROR", "DEBUG"]), "lg": r.choice(["app", "app", "asyncz.dashboard.history"]), "msg": r.choice(MSGS),
            "how": r.choice(["dict", "dict", "entry", "naive", "zone"]), "extra": r.choice([None, None, {"x": 1}])}  # fmt: skip


def random_script(seed):
    r = random.Random("log:" + seed)
    s = hist_jobs.random_script(seed)
    s |= {"max": 100, "lmax": r.choice([1, 2, 4, 8, LMAX, LMAX, LMAX]), "runs": r.choice([1, 2, 3]), "listen": r.choice([0, 1, 1, 2])}
    ops = []
    for _ in range(r.randint(4, 24)):
        x = r.random()
        if x < 0.3:
            ops.append({"op": "tick", "ms": r.choice([1, 500, 4000, 4999, 5000, 5001, 9999, 10000, 60000])})
        elif x < 0.38:
            ops.append(r.choice([{"op": "know", "task": r.choice(s["names"])}, {"op": "ident", "ident": r.choice([None, "node-1"]), "how": "attr"}]))
        elif x < 0.58:
            ops.append(line_op(r, s))
        elif x < 0.74:
            ops.append({"op": "logs", "run": r.randrange(4), "limit": r.choice([200, 200, 200, 1, 2, 3, 5, 0, -1])})
        elif x < 0.76:
            ops.append({"op": "wipe"})
        else:
            while (o := hist_jobs.random_op(r, s))["op"] not in ("sub", "exe"):
                pass
            ops.append(o)
    s["ops"] = [*ops, *({"op": "logs", "run": k, "limit": 200} for k in range(3)), {"op": "all"}]
    return s


def model_script(h, seed, lmax):
    r = random.Random(seed)
    base = {"task": "alpha", "store": "default", "ident": None}
    ops = []
    for o in h:
        if o["op"] == "tick":
            ops.append({"op": "tick", "ms": 5000})
        elif o["op"] == "line":
            ops.append({"op": "line", "task": "alpha", "run": 0 if o["run"] else None, "off": 0, "lv": "INFO", "lg": "app", "msg": "work", "how": "dict", "extra": None})
        elif o["op"] == "sub":
            ops.append({**base, "op": "sub", "rts": o["rts"], "src": "scheduled", "cc": 0, "full": o["full"]})
        else:
            ops.append({**base, "op": "exe", "rt": o["rt"], "st": o["st"], "ret": "none", "exc": "val" if o["st"] == "failed" else "none", "tb": None})
    ops += [*({"op": "logs", "run": k, "limit": n} for k in range(2) for n in (200, r.choice([1, 2, 3]))), {"op": "all"}]
    return {"seed": str(seed), "max": 100, "lmax": lmax, "real": False, "listen": r.choice([0, 1]), "names": ["alpha"], "stores": ["default"], "runs": 3, "tasks": {}, "ops": ops}


def play(job, scripts, exact=0):
    log, segs = [], []
    for seg, s in enumerate(scripts):
        stage = Stage(s)
        for o in s["ops"]:
            stage.do(o)
        log += [{**e, "seg": seg} for e in stage.log]
        segs.append(s)
    return hist_jobs.judge(job, log, segs, "RunLogTrace", exact)


def model_job(job):
    load()
    return play(job, [model_script(h, n, job.get("lmax", LMAX)) for n, h in enumerate(job["scripts"])], exact=len(job["scripts"]))


def random_job(job):
    load()
    return play(job, [random_script(f"log:{job['seed0'] + k}") for k in range(job["n"])])


def replay(job):
    load()
    return play(job, job["scripts"])
