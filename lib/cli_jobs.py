"""Commands given to the real command line, judged by CliTrace."""

from __future__ import annotations

import asyncio
import contextlib
import io
import json
import logging
import os
import random
import shutil
import sys
from datetime import timedelta, timezone
from zoneinfo import ZoneInfo

import hist_jobs
import vclock

UTC = timezone.utc
NONE, UNDEF = -1, -2
PATHS = {f: f"cbodies:{f}" for f in ("mark", "amark", "boom", "aboom", "one")}


def load(tz="UTC"):
    global app, cbodies, store_jobs
    os.environ["TZ"] = tz
    import time

    time.tzset()
    vclock.import_core()
    import asyncz.cli.app as app
    import asyncz.cli.bootstrap_loader  # noqa
    import cbodies
    import store_jobs

    vclock.patch()
    from asyncz.schedulers import AsyncIOScheduler

    init = AsyncIOScheduler.__init__

    def made(self, *args, **kwargs):
        cbodies.MADE[:] = [self]
        init(self, *args, **kwargs)

    AsyncIOScheduler.__init__ = made
    logging.disable(logging.CRITICAL)


def ms(dt):
    if dt is None:
        return NONE
    d = dt - vclock.EPOCH
    us = d // timedelta(microseconds=1)
    return us // 1000 if us % 1000 == 0 else -7  # nothing is between milliseconds


def ms_of_text(text):
    from datetime import datetime

    return NONE if text is None else ms(datetime.fromisoformat(text))


def trigger_of(t):
    name = type(t).__name__
    if name == "IntervalTrigger":
        return {"k": "int", "st": ms(t.start_at), "per": round(t.interval.total_seconds() * 1000), "en": ms(t.end_at)}
    if name == "DateTrigger":
        return {"k": "date", "at": ms(t.run_at)}
    f = {x.name: str(x) for x in t.fields}
    if name == "CronTrigger" and f.pop("second") == "0" and f["minute"].startswith("*/") and all(v == "*" for k, v in f.items() if k != "minute"):
        return {"k": "cron", "per": int(f["minute"][2:]) * 60000, "en": ms(t.end_at)}
    return {"k": "?" + str(t)}


def short(ref):
    return (ref or "?").partition(":")[2] if (ref or "").startswith("cbodies:") else str(ref)


def grace(x):
    return NONE if x is None else round(x * 1000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def record(task, alias):
    return {
        "id": task.id, "sa": alias, "nrt": ms(task.next_run_time), "tr": trigger_of(task.trigger), "ex": task.executor, "co": bool(task.coalesce),
        "mx": task.max_instances, "gr": grace(task.mistrigger_grace_time), "nm": task.name, "fn": short(task.fn_reference),
        "ar": canon(list(task.args)), "kw": canon(dict(task.kwargs)),
    }  # fmt: skip


STATUS = {"status", "doctor", "instances"}


def made_trigger(tr):
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger
    from asyncz.utils import get_localzone

    if tr["k"] == "date":
        return DateTrigger(run_at=vclock.EPOCH + timedelta(milliseconds=tr["at"]), timezone=UTC)
    if tr["k"] == "int":
        return IntervalTrigger(seconds=tr["per"] // 1000, timezone=get_localzone())
    return CronTrigger.from_crontab(f"*/{tr['per'] // 60000} * * * *", timezone=get_localzone())


class Stage:
    """two stores and the commands given about them"""

    def __init__(self, s, where):
        self.s = s
        self.where = where
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where)
        vclock.CLOCK.reset()
        self.log = [{"op": "new"}]
        self.auto = "nobody"
        self.sts = []
        for alias, kind in s["stores"]:
            spec = f"sqlite:///{where}/{alias}.db" if kind == "sql" else f"file://{where}/{alias}.d"
            self.sts.append((alias, kind, spec))
            self.truth_of(alias, kind)

    def truth_of(self, alias, kind):
        from asyncz.stores.file import FileStore
        from asyncz.stores.sqlalchemy import SQLAlchemyStore

        store = SQLAlchemyStore(database=f"sqlite:///{self.where}/{alias}.db") if kind == "sql" else FileStore(directory=f"{self.where}/{alias}.d")
        store.start(store_jobs.scheduler(), alias)
        try:
            return [record(t, alias) for t in store.get_all_tasks()]
        finally:
            store.shutdown()
            if kind == "sql":
                store.engine.dispose()

    def truth(self):
        return [r for alias, kind, _ in self.sts for r in self.truth_of(alias, kind)]

    def close(self):
        shutil.rmtree(self.where, ignore_errors=True)

    # -------------------------------------------------------------- one call
    def main(self, argv, stdin="", boot=None):
        """exit code and what was printed"""
        loops = []
        new_loop = asyncio.new_event_loop

        def fresh():
            loops.append(new_loop())
            return loops[-1]

        made = []
        if boot is not None:
            from asyncz.schedulers import AsyncIOScheduler

            def make():
                from asyncz.cli.utils import build_stores_map

                made.append(AsyncIOScheduler(stores=build_stores_map(boot)))
                return made[-1]

            cbodies.SCHEDULER = make
        import asyncz.cli.bootstrap_loader as bl

        bl.BOOTSTRAP_CACHE.clear()
        out, err = io.StringIO(), io.StringIO()
        saved = sys.argv, sys.stdin
        sys.argv, sys.stdin = ["asyncz", *argv], io.StringIO(stdin)
        asyncio.new_event_loop = fresh
        rc = 0
        note = ""
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    app.main()
                except SystemExit as e:
                    rc = 0 if e.code in (None, 0) else 1
                except BaseException as e:
                    rc, note = 1, repr(e)[:300]
        finally:
            asyncio.new_event_loop = new_loop
            sys.argv, sys.stdin = saved
            for sched in made:
                if sched.state != 0 and loops:
                    loops[0].run_until_complete(self.stop(sched))
            for loop in loops:
                with contextlib.suppress(BaseException):
                    loop.run_until_complete(loop.shutdown_default_executor())
                loop.close()
            asyncio.set_event_loop(None)
        return rc, out.getvalue(), err.getvalue() + note

    @staticmethod
    async def stop(sched):
        sched.shutdown()

    def given(self, o):
        """the stores of the command, in its order"""
        sts = [self.sts[k] for k in o["sts"]]
        return [x[0] for x in sts], [f"{a}={spec}" for a, _, spec in sts]

    def step(self, o):
        o = {**o, "a": {**o["a"]}}
        if o["op"] == "adv":
            vclock.CLOCK.us += o["a"]["ms"] * 1000
            return
        a = o["a"]
        if a.get("id") == "@":
            a["id"] = self.auto
        aliases, specs = self.given(o)
        before = self.truth()
        now = vclock.CLOCK.ms
        mine = [t for t in before if t["sa"] in aliases]
        due = any(t["nrt"] != NONE and t["nrt"] <= now for t in mine)
        boot = bool(o.get("boot"))
        if o["op"] == "start" and (aliases[0] != "default" or due or now % 60000 == 0):
            return
        edge = now % 60000 == 0  # times of cron triggers
        edge = edge or any(t["tr"]["k"] == "int" and now >= t["tr"]["st"] and (now - t["tr"]["st"]) % t["tr"]["per"] == 0 for t in mine)
        past = edge or any(t["tr"]["k"] == "date" and t["tr"]["at"] <= now for t in mine)
        if boot and (due or past or o["op"] in {"start", "bad"} or (o["op"] == "add" and a["tr"]["k"] == "date" and a["tr"]["at"] <= now)):
            boot = False
        if o["op"] in STATUS:
            a["boot"] = boot
        if o["op"] == "update":
            # do the arguments fit, once changed?
            t = next((t for x in aliases for t in mine if t["sa"] == x and t["id"] == a["id"]), None)
            new = {**(t or {"fn": "mark", "ar": "[]", "kw": "{}"}), **{u["k"]: u["s"] for u in a["up"] if u["k"] in ("fn", "ar", "kw")}}
            a["okargs"] = fits(new["fn"], json.loads(new["ar"]), json.loads(new["kw"]))
        argv, stdin = getattr(self, "argv_" + o["op"], self.argv_plain)(o, a)
        as_json = bool(o.get("json")) and o["op"] in {"list", "preview", "inspect", "timeline", "update"} | STATUS
        if as_json:
            argv.append("--json")
        if boot:
            argv += ["--bootstrap", "cbodies:spec"]
        else:
            for spec in specs:
                argv += ["--store", spec]
        cbodies.RUNS.clear()
        cbodies.HOOKS.clear()
        cbodies.EXECUTORS.clear()
        rc, out, err = self.main(argv, stdin, specs if boot else None)
        runs = list(cbodies.RUNS)
        after = self.truth()
        ids = [(t["id"], t["sa"]) for t in before]
        new = [t for t in after if (t["id"], t["sa"]) not in ids]
        if o["op"] == "add" and a["id"] == "":
            a["id"] = new[0]["id"] if len(new) == 1 else "none"
            if len(new) == 1:
                self.auto = a["id"]
        if o["op"] == "start":
            for j in a["jobs"]:
                j["id"] = next((t["id"] for t in new if t["nm"] == j["nm"]), "none")
        e = {"op": o["op"], "a": a, "now": now, "rc": rc, "json": as_json, "sts": aliases, "tasks": after, "runs": runs, "boot": boot, "argv": argv,
             "text": (out + err)[-400:] if rc or not as_json else ""}  # fmt: skip
        try:
            e["out"] = self.printed(o, a, out, as_json, mine) if rc == 0 else {"none": True}
        except Exception as x:
            e["out"] = {"none": True}
            e["text"] = repr(x) + (out + err)[-300:]
            e["op"] = o["op"]
            e["a"] = a
            e["rc"] = 2  # what was printed cannot be read
        self.log.append(e)

    # -------------------------------------------------------------- command lines
    def argv_plain(self, o, a):
        return [o["op"], a["id"]] if "id" in a else [o["op"]], ""

    def argv_add(self, o, a):
        argv = ["add", PATHS[a["fn"]]]
        argv += self.when(a["tr"], o["cl"])
        if a["id"]:
            argv += ["--id", a["id"]]
        if a["nm"]:
            argv += ["--name", a["nm"]]
        if a["ar"] != "[]" or o["cl"]["full"]:
            argv += ["--args", a["ar"]]
        if a["kw"] != "{}" or o["cl"]["full"]:
            argv += ["--kwargs", a["kw"]]
        return argv, ""

    def when(self, tr, cl, zone=""):
        if tr["k"] == "int":
            s = tr["per"] // 1000
            text = f"{s // 3600}h" if s % 3600 == 0 else f"{s // 60}m" if s % 60 == 0 else f"{s}s"
            return ["--interval", text.upper() if cl["full"] else text]
        if tr["k"] == "date":
            at = vclock.EPOCH + timedelta(milliseconds=tr["at"])
            if cl["off"] == "naive":
                text = at.astimezone(ZoneInfo(zone) if zone and zone != NOWHERE else None).replace(tzinfo=None).isoformat()
            else:
                text = at.astimezone(timezone(timedelta(hours=cl["off"]))).isoformat()
            return ["--at", text]
        return ["--cron", f"*/{tr['per'] // 60000} * * * *"]

    def argv_update(self, o, a):
        argv = ["update", a["id"]]
        for u in a["up"]:
            k = u["k"]
            if k == "gr" and u["t"] == "none":
                argv += ["--clear-mistrigger-grace-time"]
                continue
            name = {"nm": "--name", "fn": "--callable", "ar": "--args", "kw": "--kwargs", "ex": "--executor", "co": "--coalesce",
                    "mx": "--max-instances", "gr": "--mistrigger-grace-time"}[k]  # fmt: skip
            value = (PATHS[u["s"]] if k == "fn" else u["s"]) if "s" in u else u["w"] if k == "co" else str(u["i"] / 1000) if k == "gr" else str(u["i"])
            argv += [f"{name}={value}"] if value.startswith("-") else [name, value]
        if a["dry"]:
            argv.append("--dry-run")
        if a["agree"] == "yes":
            argv.append("--yes")
        return argv, {"yes": "", "y": "y\n", "n": "n\n"}[a["agree"]]

    def argv_list(self, o, a):
        argv = ["list"]
        for name, k in (("--state", "st"), ("--executor", "ex"), ("--trigger", "tk"), ("--query", "q")):
            if a[k]:
                argv += [name, a[k]]
        argv += ["--sort-by", a["sort"]] if a["sort"] != "next_run_time" or a["desc"] else []
        return argv + (["--desc"] if a["desc"] else []), ""

    def argv_preview(self, o, a):
        return [o["op"], a["id"], f"--count={a['n']}"], ""

    argv_inspect = argv_preview

    def argv_timeline(self, o, a):
        return ["timeline", f"--per-task={a['per']}", f"--limit={a['limit']}"], ""

    def argv_doctor(self, o, a):
        return ["doctor"] + (["--strict"] if a["strict"] else []), ""

    def argv_bad(self, o, a):
        return [x.replace("@SOME", a["some"]) for x in a["argv"]], ""

    def argv_start(self, o, a):
        jobs = []
        for j in a["jobs"]:
            job = {"name": j["nm"], "func": PATHS[j["fn"]], "args": json.loads(j["ar"]), "kwargs": json.loads(j["kw"])}
            flag, text = self.when(j["tr"], {"full": False, "off": "naive" if a["naive"] else 2}, a["zone"] if a["how"] != "module" else "")
            jobs.append({**job, flag[2:]: text})
        argv = ["start"]
        if a["how"] == "module":
            jobs = [{**{k: v for k, v in x.items() if k not in ("at", "cron", "interval")}, "trigger": made_trigger(j["tr"])} for x, j in zip(jobs, a["jobs"])]
            cbodies.REGISTRY[:] = jobs
            argv += ["--module", a["from"]]
        else:
            path = f"{self.where}/jobs.{a['how']}"
            with open(path, "w") as f:
                json.dump({"jobs": jobs}, f)  # JSON is YAML, too
            argv += ["--config", path]
        if a["zone"]:
            argv += ["--timezone", a["zone"]]
        for x in a["exs"]:
            argv += ["--executor", x["al"] + "=" + x["ty"] + (f":{x['w']}" if x["w"] else "")]
        return argv + ["--on-start", "cbodies:hook", "--on-stop", "cbodies:ahook"], ""

    # -------------------------------------------------------------- what was printed
    def printed(self, o, a, out, as_json, mine):
        op = o["op"]
        if not as_json:
            text = out.lower()
            name = a.get("id", "")
            # rich may break lines
            flat = "".join(text.split())
            if op == "start":
                return {"hooks": list(cbodies.HOOKS), "exs": list(cbodies.EXECUTORS)}
            if op == "resume":
                return {"gone": "removed" in text}
            words = {"add": "added", "pause": "paused", "remove": "removed", "run": "triggered"}
            if op in words:
                return {"told": words[op] in text and "".join(name.lower().split()) in flat}
            return {"none": True}
        if op == "update" and a["agree"] != "yes":
            out = out[out.find("{") :]  # the question comes first
        data = json.loads(out)
        if op == "list":
            rows = [self.row(x) for x in data]
            key = {"id": "id", "name": "nm", "schedule_state": "st", "executor": "ex", "store": "sa", "trigger": "tk"}.get(a["sort"], "id")
            order = sorted({r[key].lower() for r in rows})
            return {"rows": [{**r, "rk": order.index(r[key].lower())} for r in rows]}
        if op in ("preview", "inspect"):
            full = self.row(data["task"]) if op == "inspect" else {k: v for k, v in self.row({**data["task"], "next_run_time": None, "callable_reference": "x:y"}).items() if k not in ("nrt", "fn")}
            if op == "inspect":
                t = data["task"]
                full |= {"co": t["coalesce"], "mx": t["max_instances"], "gr": grace(t["mistrigger_grace_time"])}
            return {"times": [ms_of_text(x) for x in data["run_times"]], "end": data["exhausted"], "asked": data["requested_count"],
                    "got": data["returned_count"], "task": full}  # fmt: skip
        if op == "timeline":
            rows = [{"t": ms_of_text(r["run_time"]), "id": r["task"]["id"], "sa": r["task"]["store"]} for r in data["rows"]]
            return {"rows": rows, "count": data["task_count"], "total": data["total_count"], "returned": data["returned_count"],
                    "ended": data["exhausted_task_count"]}  # fmt: skip
        if op == "update":
            kinds = {"name": "nm", "executor": "ex", "callable_reference": "fn", "args": "ar", "kwargs": "kw", "coalesce": "co", "max_instances": "mx",
                     "mistrigger_grace_time": "gr"}  # fmt: skip

            def show(k, v):
                return {"fn": short, "ar": canon, "kw": canon, "co": lambda x: str(x).upper(), "gr": lambda x: str(grace(x))}.get(k, str)(v)

            diff = [[kinds[k], show(kinds[k], v["before"]), show(kinds[k], v["after"])] for k, v in data["diff"].items()]
            got = {kinds[k]: show(kinds[k], v) for k, v in (data.get("after") or {}).items()}
            return {"id": data["id"], "sa": data["store"], "dry": data["dry_run"], "changed": data["changed"], "applied": data["applied"], "diff": diff,
                    "after": "|".join(got.get(k, "?") for k in ("nm", "ex", "fn", "ar", "kw", "co", "mx", "gr"))}  # fmt: skip
        x = data if op == "status" else data["scheduler"] if op == "doctor" else data["instances"][0]["scheduler"] if "scheduler" in data["instances"][0] else data["instances"][0]
        r = {"all": x["task_count"], "sched": x["scheduled_task_count"], "paused": x["paused_task_count"], "pend": x["pending_task_count"], "st": x["state"],
             "sts": x["stores"], "exs": x["executors"]}  # fmt: skip
        if op == "doctor":
            r |= {"ready": data["ready"], "health": data["health"]}
        if op == "instances":
            r |= {"n": data["count"]}
        return r

    @staticmethod
    def row(x):
        return {"id": x["id"], "sa": x["store"], "st": x["state"], "nrt": ms_of_text(x["next_run_time"]), "ex": x["executor"], "nm": x["name"],
                "fn": short(x["callable_reference"]), "tk": x["trigger_alias"]}  # fmt: skip


# ------------------------------------------------------------------ scripts
IDS = ["t1", "t2", "t3", "T1 x", "ünï"]
NAMES = ["alpha-run", "Alpha", "beta-x", "gamma"]
QS = ["ALPHA", "alpha-", "beta-", "gam", "zzz", "Alpha"]
CL = {"full": False, "off": 0}


def hits(q):
    return [n for n in NAMES if q.lower() in n.lower()]


def fits(fn, ar, kw):
    return fn != "one" or (len(ar) == 1 and not kw)


def add_args(i, tr, nm="", fn="mark", ar=(), kw=None):
    kw = kw or {}
    return {"id": i, "sa": "", "tr": tr, "nrt": UNDEF, "ex": "", "co": UNDEF, "mx": UNDEF, "gr": UNDEF, "nm": nm, "rep": False, "fn": fn,
            "ar": canon(list(ar)), "kw": canon(kw), "how": "call", "okargs": fits(fn, ar, kw), "mis": False}  # fmt: skip


def trigger(r, now):
    k = r.random()
    if k < 0.5:
        return {"k": "int", "st": 0, "per": r.choice([1, 2, 5, 60, 90, 600, 3600, 7200]) * 1000, "en": NONE}
    if k < 0.75:
        return {"k": "date", "at": max(0, now + r.choice([-60000, -500, 0, 250, 1000, 5000, 60000, 3600000]))}
    return {"k": "cron", "per": r.choice([1, 2, 5, 10, 15, 30]) * 60000, "en": NONE}


def call_args(r):
    fn = r.choice(["mark", "mark", "amark", "boom", "aboom", "one", "one"])
    if fn == "one":
        return fn, *r.choice([((1,), {}), ((1,), {}), (("q",), {}), ((), {}), ((1, 2), {}), ((1,), {"x": 1})])
    return fn, r.choice([(), (1,), ("a", [2], {"b": None})]), r.choice([{}, {}, {"k": 1}, {"z": "ö", "a": [1.5]}])


BAD = [
    ["add", "cbodies:mark"], ["add", "cbodies:mark", "--interval", "5s", "--cron", "* * * * *"], ["add", "cbodies:mark", "--interval", "1.5h"],
    ["add", "cbodies:mark", "--interval", "5"], ["add", "cbodies:mark", "--interval=-5m"], ["add", "cbodies:mark", "--interval", "5d"],
    ["add", "cbodies:mark", "--cron", "61 * * * *"], ["add", "cbodies:mark", "--cron", "* * *"], ["add", "cbodies:mark", "--at", "yesterday"],
    ["add", "cbodies:mark", "--interval", "5s", "--args", "[1"], ["add", "cbodies:mark", "--interval", "5s", "--kwargs", "{"],
    ["add", "cbodies:mark", "--interval", "5s", "--kwargs", "[1]"], ["add", "cbodies:mark", "--interval", "5s", "--args", "5"],
    ["add", "cbodies:nope", "--interval", "5s"], ["add", "nope_:mark", "--interval", "5s"], ["add", "cbodies", "--interval", "5s"],
    ["add", "cbodies:mark", "--interval", "5s", "--nope"], ["add", "--interval", "5s"], ["add", "cbodies:mark", "--interval", "5s", "--at", "2030-01-02T00:00:00"],
    ["update", "@SOME"], ["update", "@SOME", "--yes"], ["update", "@SOME", "--coalesce", "maybe", "--yes"], ["update", "@SOME", "--args", "5", "--yes"],
    ["update", "@SOME", "--args", '"ab"', "--yes"], ["update", "@SOME", "--args", '{"a": 1}', "--yes"], ["update", "@SOME", "--kwargs", "[1]", "--yes"],
    ["update", "@SOME", "--kwargs", "{", "--yes"], ["update", "@SOME", "--max-instances", "x", "--yes"], ["update", "@SOME", "--max-instances", "1.5", "--yes"],
    ["update", "@SOME", "--mistrigger-grace-time", "x", "--yes"], ["update", "@SOME", "--name", "", "--yes"], ["update", "@SOME", "--callable", "cbodies:nope", "--yes"],
    ["update", "@SOME", "--name", "q", "--callable", "nope_:x", "--yes"],
    ["list", "--state", "nope"], ["list", "--sort-by", "nope"], ["list", "extra"], ["inspect"], ["preview"], ["run"], ["pause"], ["resume"], ["remove"],
    ["update"], ["nope"], ["nope", "@SOME"], ["pause", "@SOME", "--nope"], ["remove", "@SOME", "extra"], ["run", "@SOME", "--force-it"],
    ["inspect", "@SOME", "--count", "x"], ["timeline", "--limit", "x"], ["remove", "@SOME", "--store", "x=nothing"], ["pause", "@SOME", "--store", "what-is-it"],
]  # fmt: skip


def ref(i):
    return {"id": i, "sa": "", "force": True, "rmf": True}


def update_args(r, i):
    up = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["nm", "ex", "co", "mx", "gr", "ar", "kw", "fn", "nm", "mx", "gr"])
        if k == "nm":
            up[k] = {"t": "str", "s": r.choice(NAMES)}
        elif k == "ex":
            up[k] = {"t": "str", "s": r.choice(["default", "pool"])}
        elif k == "co":
            w = r.choice(["true", "FALSE", "yes", "no", "1", "0", " On", "off"])
            up[k] = {"t": "bool", "i": int(w.strip().lower() in ("true", "yes", "1", "on")), "w": w}
        elif k == "mx":
            up[k] = {"t": "int", "i": r.choice([1, 2, 3, 7, 1, 2, 3, 7, 0, -1])}
        elif k == "gr":
            up[k] = {"t": "none", "i": NONE} if r.random() < 0.3 else {"t": "int", "i": r.choice([500, 1000, 60000, 7500, 500, 60000, 0, -1000])}
        elif k == "ar":
            up[k] = {"t": "list", "s": canon(r.choice([[], [1], [1, 2], ["x"]]))}
        elif k == "kw":
            up[k] = {"t": "dict", "s": canon(r.choice([{}, {"k": 2}, {"y": 1}]))}
        else:
            up[k] = {"t": "fn", "s": r.choice(["mark", "amark", "boom"])}
    return {"id": i, "sa": "", "up": [{"k": k, **u} for k, u in up.items()], "okargs": True, "dry": r.random() < 0.2, "agree": r.choice(["yes", "yes", "yes", "y", "n"])}


NOWHERE = "Nowhere/At_All"


def start_args(r):
    """the zone of what is configured without an offset, and executors"""
    exs = []
    for al in r.sample(["default", "io", "cpu"], r.choice([0, 0, 1, 2, 3])):
        ty = r.choice(["asyncio", "thread", "threads", "pool", "Thread", "debug", "process", "proc", "processpool", "thread", "debug", "rocket" if r.random() < 0.2 else "pool"])
        pool = ty not in ("asyncio", "debug", "rocket")
        exs.append({"al": al, "ty": ty, "w": r.choice([0, 1, 3, 12]) if pool else 0})
    return {"exs": exs, "zone": r.choice(["", "", "Asia/Tokyo", "America/New_York", "Europe/Berlin", NOWHERE if r.random() < 0.3 else "UTC"]), "naive": r.random() < 0.6}


def random_script(seed):
    r = random.Random(seed)
    stores = r.choice([
        [("durable", "sql")], [("durable", "file")], [("default", "sql")], [("default", "file"), ("other", "sql")], [("durable", "sql"), ("other", "file")],
        [("main", "sql"), ("default", "sql")],
    ])  # fmt: skip
    ops = []
    now = 0
    start = any(a == "default" for a, _ in stores)
    n = 0
    added = []
    for _ in range(r.randint(6, 16)):
        sts = [0] if len(stores) == 1 else r.choice([[0, 1], [0, 1], [1, 0], [0], [1]])
        o = {"sts": sts, "json": r.random() < 0.85, "boot": r.random() < 0.12, "cl": {"full": r.random() < 0.3, "off": r.choice(["naive", 0, 2, -7])}}
        i = r.choice(IDS[:3] if r.random() < 0.8 else [*IDS, "@", "nobody"])
        x = r.random() if added or r.random() < 0.3 else 0.1
        if x >= 0.4 and added and r.random() < 0.7:
            i = r.choice(added)  # there, unless it was removed or has ended
        if x < 0.26:
            fn, ar, kw = call_args(r)
            a = add_args(r.choice([i if i not in ("@", "nobody") else "t1", i if i not in ("@", "nobody") else "t1", ""]), trigger(r, now), r.choice(["", *NAMES]), fn, ar, kw)
            if not a["okargs"]:
                a["id"] = a["id"] or "t2"
            else:
                added.append(a["id"] or "@")
            ops.append({**o, "op": "add", "a": a})
        elif x < 0.4:
            d = r.choice([250, 1000, 1500, 5000, 60000, 60000 * 7, 3600000])
            now += d
            ops.append({"op": "adv", "a": {"ms": d}})
        elif x < 0.5:
            ops.append({**o, "op": "run", "a": ref(i)})
        elif x < 0.62:
            ops.append({**o, "op": "update", "a": update_args(r, i)})
        elif x < 0.74:
            ops.append({**o, "op": r.choice(["pause", "pause", "resume", "resume", "remove"]), "a": ref(i)})
        elif x < 0.8:
            ops.append({**o, "op": "list", "a": {"st": r.choice(["", "", "paused", "scheduled", "pending"]), "ex": r.choice(["", "", "", "default", "pool"]),
                                                 "tk": r.choice(["", "", "interval", "date", "cron"]), "q": r.choice(["", "", "", *QS]), "hits": [],
                                                 "sort": r.choice(["id", "name", "next_run_time", "next_run_time", "schedule_state", "executor", "store", "trigger"]),
                                                 "desc": r.random() < 0.3}})  # fmt: skip
            ops[-1]["a"]["hits"] = hits(ops[-1]["a"]["q"]) if ops[-1]["a"]["q"] else []
        elif x < 0.88:
            ops.append({**o, "op": r.choice(["inspect", "preview"]), "a": {"id": i, "n": r.choice([1, 2, 5, 5, 20, 50, 0, 51])}})
        elif x < 0.91:
            ops.append({**o, "op": "timeline", "a": {"per": r.choice([1, 3, 10, 0, 11]), "limit": r.choice([1, 2, 5, 100, 500, 0, 501])}})
        elif x < 0.95:
            ops.append({**o, "op": r.choice(sorted(STATUS)), "boot": r.random() < 0.3, "a": {"strict": r.random() < 0.5, "boot": False}})
        elif x < 0.96 or not start:
            ops.append({**o, "op": "bad", "a": {"argv": r.choice(BAD), "some": i if i != "@" else "t1"}})
        else:
            jobs = []
            for _ in range(r.choice([1, 2])):
                n += 1
                tr = trigger(r, now)
                if tr["k"] == "date":
                    tr["at"] = now + 86_400_000
                if tr["k"] == "int":
                    tr["per"] = 3_600_000
                jobs.append(add_args("", tr, f"job{n}", "mark", (n,), {}))
            k = 0 if stores[0][0] == "default" else 1
            ops.append({**o, "op": "start", "sts": [k], "a": {"jobs": jobs, "how": r.choice(["json", "yaml", "module"]), "from": r.choice(["cbodies:REGISTRY", "cbodies:registry"]), **start_args(r)}})
    # what has become of the tasks
    o = {"sts": list(range(len(stores))), "json": True, "boot": False, "cl": {"full": False, "off": 0}}
    ops.append({**o, "op": "timeline", "a": {"per": r.choice([2, 3, 10]), "limit": r.choice([2, 3, 5, 8, 500])}})
    if r.random() < 0.5:
        ops.append({**o, "op": r.choice(["inspect", "preview"]), "a": {"id": r.choice(IDS[:3]), "n": r.choice([2, 5, 20])}})
    return {"seed": seed, "stores": stores, "ops": ops}


def play(job, scripts, exact=0):
    log, segs = [], []
    for s in scripts:
        stage = Stage(s, os.path.join(job["dir"], "cli"))
        for o in s["ops"]:
            stage.step(o)
        stage.close()
        log += [{**e, "seg": len(segs)} for e in stage.log]
        segs.append(s)
    return hist_jobs.judge(job, log, segs, "CliTrace", exact)


ZONES = ["UTC", "Europe/Berlin", "America/New_York"]


def random_job(job):
    load(ZONES[job["seed0"] % 3])
    return play(job, [{**random_script(f"cli:{job['seed0'] + k}"), "tz": ZONES[job["seed0"] % 3]} for k in range(job["n"])])


def bad_job(job):
    """every refused command line, on a store with tasks"""
    load()
    scripts = []
    for n, argv in enumerate(BAD):
        if n % job["parts"] != job["part"]:
            continue
        o = {"sts": [0], "json": False, "boot": False, "cl": CL}
        ops = [{**o, "op": "add", "a": add_args("t1", {"k": "int", "st": 0, "per": 5000, "en": NONE}, "alpha-run", "mark", (1,))},
               {"op": "adv", "a": {"ms": 7000}}, {**o, "op": "bad", "a": {"argv": argv, "some": "t1"}}]  # fmt: skip
        scripts.append({"seed": f"bad{n}", "stores": [("durable", "sql" if n % 2 else "file")], "ops": ops})
    return play(job, scripts)


def start_scripts():
    """every kind of executor, zone and origin of the jobs"""
    tys = ["asyncio", "thread", "threads", "pool", "Thread", "debug", "process", "proc", "processpool", "rocket", "asyncio"]
    zones = ["", "Asia/Tokyo", "America/New_York", "UTC", NOWHERE]
    scripts = []
    for n in range(3 * len(tys)):
        r = random.Random(f"start{n}")
        k = n % len(tys)
        pool = tys[k] not in ("asyncio", "debug", "rocket")
        exs = [{"al": "io" if n % 2 else "default", "ty": tys[k], "w": [0, 3, 1][n // len(tys)] if pool else 0}]
        if n % 3 == 0:
            exs.append({"al": "cpu", "ty": "thread", "w": n % 2 * 4})
        how = ["json", "yaml", "module", "json"][n % 4]
        o = {"sts": [0], "json": True, "boot": False, "cl": CL}
        jobs = [add_args("", {"k": "date", "at": 90_000_000 + n * 1000}, "job1", "mark", (n,)), add_args("", {"k": "date", "at": 86_400_000}, "job2", "amark", (), {"k": n}),
                add_args("", trigger(r, 0) if n % 2 else {"k": "int", "st": 0, "per": 3_600_000, "en": NONE}, "job3", "boom")]  # fmt: skip
        if jobs[2]["tr"]["k"] == "date":
            jobs[2]["tr"]["at"] = 86_460_000
        if jobs[2]["tr"]["k"] == "int":
            jobs[2]["tr"]["per"] = 7_200_000
        a = {"jobs": jobs, "how": how, "from": ["cbodies:REGISTRY", "cbodies:registry"][n // 4 % 2], "exs": exs, "zone": zones[n % 5] if n % 10 != 9 else "", "naive": n % 7 != 3}
        reads = [{"op": "list", "a": {"st": "", "ex": "", "tk": "", "q": "", "hits": [], "sort": "next_run_time", "desc": False}}]
        reads += [{"op": op, "boot": b, "a": {"strict": s, "boot": False}} for op in sorted(STATUS) for b in (False, True) for s in ((False, True) if op == "doctor" else (False,))]
        scripts.append({"seed": f"start{n}", "stores": [("default", "file" if n % 2 else "sql")], "ops": [
            {"op": "adv", "a": {"ms": 7000}}, {**o, "op": "start", "a": a}, *[{**o, **x} for x in (reads if n % 4 == 0 else r.sample(reads, 2))]]})
    return scripts


def start_job(job):
    zone = ZONES[job["part"] % 3]
    load(zone)
    return play(job, [{**s, "tz": zone} for n, s in enumerate(start_scripts()) if n % job["parts"] == job["part"]])


def model_job(job):
    """behaviours of CliMC"""
    load()
    scripts = []
    for n, h in enumerate(job["scripts"]):
        ops = []
        for c in h:
            if c["op"] == "adv":
                ops.append({"op": "adv", "a": {"ms": c["a"]["to"]}})
                continue
            a = dict(c["a"])
            if c["op"] == "update":
                a["up"] = [{**u, **({"w": "yes" if u["i"] else "no"} if u["k"] == "co" else {})} for u in a["up"]]
            ops.append({"op": c["op"], "a": a, "sts": [0, 1], "json": True, "boot": False, "cl": CL})
        kinds = [("sql", "file"), ("file", "sql"), ("sql", "sql")][n % 3]
        scripts.append({"seed": n, "stores": [("durable", kinds[0]), ("other", kinds[1])], "ops": ops})
    return play(job, scripts, exact=len(job["scripts"]))


def replay(job):
    load(job["scripts"][0].get("tz", "UTC"))
    return play(job, job["scripts"])
