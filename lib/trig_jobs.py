"""Real triggers: construction from the records of Trig.tla, random chains of answers, judged by TrigTrace."""

from __future__ import annotations

import os
import pickle
import random
import signal
import time
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import common

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
NAIVE = datetime(1970, 1, 1)
DST = ["Europe/Berlin", "America/New_York", "Australia/Lord_Howe", "America/Havana", "Asia/Beirut"]
PLAIN = ["UTC", "Asia/Kolkata", "fix+345", "fix-210"]
NAMES = ["year", "month", "day", "week", "day_of_week", "hour", "minute", "second"]
LOW = dict(zip(NAMES, [1970, 1, 1, 1, 0, 0, 0, 0]))
HIGH = dict(zip(NAMES, [9999, 12, 31, 53, 6, 23, 59, 59]))
WD = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MO = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
OPT = ["1st", "2nd", "3rd", "4th", "5th", "last"]


def zone(name):
    if name.startswith("fix"):
        return timezone(timedelta(minutes=int(name[3:])))
    if name.startswith("pytz:"):
        import pytz

        return pytz.timezone(name[5:])
    return UTC if name == "UTC" else ZoneInfo(name)


def limbs(td):
    return [td.days, td.seconds, td.microseconds]


def point(dt):
    return limbs(dt.astimezone(UTC) - EPOCH)


def wall(dt):
    return limbs(dt.replace(tzinfo=None) - NAIVE)


def span(x):
    return timedelta(x[0], x[1], x[2])


def from_point(x):
    return EPOCH + span(x)


def zone_table():
    out = {}
    for name in [p + n for p in ("", "pytz:") for n in DST + PLAIN]:
        if name[5:] in PLAIN:
            continue
        tz = zone(name)
        off = lambda d: int(d.astimezone(tz).utcoffset().total_seconds())  # noqa: B023,E731
        d, end = datetime(2014, 1, 1, tzinfo=UTC), datetime(2075, 1, 1, tzinfo=UTC)
        base = cur = off(d)
        tr = []
        while name.split(":")[-1] in DST and d < end:
            n = d + timedelta(days=4)
            if off(n) != cur:
                lo, hi = d, n
                while hi - lo > timedelta(seconds=1):
                    mid = lo + timedelta(seconds=int((hi - lo).total_seconds()) // 2)
                    lo, hi = (mid, hi) if off(mid) == cur else (lo, mid)
                cur = off(hi)
                tr.append([*point(hi)[:2], cur])
            d = n
        out[name] = {"base": base, "tr": tr}
    out[""] = out["UTC"]
    return out


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def build(t):
    """the trigger of a record"""
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    py = t["py"]
    kw = {}
    if t["k"] in ("and", "or"):
        if t["jit"]:
            kw["jitter"] = span(t["jit"]).total_seconds()
        return {"and": AndTrigger, "or": OrTrigger}[t["k"]]([build(x) for x in t["ts"]], **kw)
    if py.get("tz"):
        kw["timezone"] = py["tz"] if py.get("tzstr") else zone(py["tz"])
    for arg in ("start_at", "end_at", "run_at"):
        if py.get(arg):
            kw[arg] = value(py[arg])
    if t["k"] == "date":
        return DateTrigger(**kw)
    if t["jit"]:
        kw["jitter"] = span(t["jit"]).total_seconds()
    if t["k"] == "interval":
        return IntervalTrigger(**py["units"], **kw)
    if py.get("crontab"):
        return CronTrigger.from_crontab(py["crontab"], timezone=kw.get("timezone"))
    return CronTrigger(**py["fields"], **kw)


def value(x):
    """[form, limbs, zone]"""
    form, at, name = x
    if form == "aware":
        return from_point(at).astimezone(zone(name))
    if form == "awarestr":
        return from_point(at).strftime("%Y-%m-%d %H:%M:%S.%fZ")
    naive = NAIVE + span(at)
    if form == "naive":
        return naive
    if form == "date":
        return date(naive.year, naive.month, naive.day)
    return naive.strftime("%Y-%m-%dT%H:%M:%S.%f")


class Gen:
    def __init__(self, seed, kind):
        self.r = random.Random(f"{kind}:{seed}")
        self.kind = kind

    # points in time ------------------------------------------------------------
    def now(self, zname):
        r = self.r
        base = datetime(2020, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(0, 10 * 365 * 86400))
        tz = zone(zname)
        x = r.random()
        if zname in DST and x < 0.6:
            # near a change of the clock
            tr = r.choice([e for e in TABLE[zname]["tr"] if 18262 < e[0] < 21900])
            base = EPOCH + timedelta(tr[0], tr[1]) + timedelta(seconds=r.choice(
                [0, -1, 1, r.randrange(-7200, 7200), r.randrange(-30, 30) * 300, r.randrange(-100000, 100000)]))
        elif x < 0.75:
            # ends of months and years
            y, m = r.choice([(r.randrange(2020, 2029), r.choice([1, 2, 3, 12])), (2024, 2), (2020, 12)])
            base = datetime(y, m, 28, 23, r.randrange(60), 59, tzinfo=tz).astimezone(UTC) + timedelta(days=r.randrange(0, 4))
        if r.random() < 0.5:
            base = base.replace(second=r.choice([0, 0, 59, 30]))
        if r.random() < 0.3:
            base = base.replace(microsecond=r.choice([1, 999999, 500000, r.randrange(10**6)]))
        return base

    def bound(self, near, zname, known):
        """a start or an end: (python form, record); known: the zone of a naive one"""
        r = self.r
        form = r.choice(["aware", "aware", "awarestr", "naive", "str", "date"])
        if form in ("aware", "awarestr"):
            z = r.choice([zname, "UTC"]) if form == "aware" else "UTC"
            return [form, point(near), z], ["t", point(near)], (z if form == "aware" else "")
        local = near.astimezone(zone(known)).replace(tzinfo=None)
        if form == "date":
            local = local.replace(hour=0, minute=0, second=0, microsecond=0)
        a = local.replace(tzinfo=zone(known)) if not known.startswith("pytz") else zone(known).localize(local)
        offs = {(local.replace(tzinfo=zone(known), fold=f)).utcoffset() for f in (0, 1)}
        back = a.astimezone(UTC).astimezone(zone(known)).replace(tzinfo=None)
        if len(offs) > 1 or back != local:
            return ["aware", point(near), "UTC"], ["t", point(near)], "UTC"
        return [form, wall(local), ""], ["w", wall(local)], ""

    def zones(self):
        """(zone of the scheduler, zone given to the trigger or "")"""
        r = self.r
        pool = PLAIN if self.kind == "combi" else PLAIN + DST * 2
        sched = r.choice(pool)
        given = r.choice(["", "", r.choice(pool)])
        return sched, given

    def limits(self, t, near, sched, given, start, end):
        """adds start and end, in the way the zone of the trigger follows from them"""
        r = self.r
        py = t["py"]
        order = [("st", "start_at", start), ("en", "end_at", end)]
        zname = given
        values = {}
        for key, arg, when in order:
            if when is None:
                t[key] = []
                continue
            known = given or sched
            p, rec, own = self.bound(when, sched, known)
            values[key] = (arg, p, rec, own)
            if not zname and p[0] == "aware":
                zname = own
        for key, (arg, p, rec, own) in values.items():
            if rec[0] == "w" and zname and zname != (given or sched):
                # naive values are meant in the zone which came with the other one
                p, rec = ["aware", point(start if key == "st" else end), zname], None
                rec = ["t", p[1]]
            t[key] = rec
            py[arg] = p
        t["zone"] = zname
        if given:
            py["tz"] = given
            py["tzstr"] = not given.startswith(("fix", "pytz")) and r.random() < 0.5
        return zname or sched

    # triggers ----------------------------------------------------------------
    def date(self, near, sched, given):
        r = self.r
        t = {"k": "date", "zone": given, "jit": [], "py": {}, "delayed": False}
        if given or r.random() < 0.5:
            known = given or "UTC"
            p, rec, _ = self.bound(near, sched, known)
            if not given:
                t["py"]["tz"], t["zone"] = known, known
            else:
                t["py"]["tz"] = given
        else:
            p, rec = ["aware", point(near), sched], ["t", point(near)]
        t["at"], t["py"]["run_at"] = rec, p
        return t

    def interval(self, near, sched, given, units=None, plain=False):
        r = self.r
        t = {"k": "interval", "jit": [], "py": {}, "delayed": False}
        if units is None:
            units = {}
            for u, top in (("weeks", 3), ("days", 10), ("hours", 30), ("minutes", 100), ("seconds", 4000)):
                if r.random() < 0.35:
                    units[u] = r.randrange(0, top)
            if r.random() < 0.25:
                units = {"seconds": r.choice([0.1, 0.25, 0.3, 1.1, 0.000001, 7.000001, 33.3])}
        step = timedelta(**units) or timedelta(seconds=1)
        t["step"], t["py"]["units"] = limbs(step), units
        far = r.choice([1, 3, 50, 100000]) if step < timedelta(days=2) else r.choice([1, 3])
        start = near - step * r.randrange(-2, far) if r.random() < 0.5 else near - timedelta(seconds=r.randrange(-5000, 10**r.randrange(1, 8)))
        if start.year < 2015 or start.year > 2036:
            start = near
        if plain:
            start = near
        end = near + step * r.choice([0, 1, 2, 5]) + timedelta(seconds=r.choice([0, 0, -1, 1])) if r.random() < 0.3 else None
        self.limits(t, near, sched, given, start, end)
        if not plain and r.random() < 0.2:
            t["jit"] = [0, r.choice([1, 5, 100]), 0]
        return t

    def expr(self, name):
        """(text, record) of one expression of a cron field"""
        r = self.r
        lo, hi = LOW[name], HIGH[name]
        if name == "year":
            lo, hi = 2018, 2034
        a = r.randint(lo, hi)
        b = r.randint(a, hi)
        rec = lambda k, a=0, b=0, step=1: {"k": k, "a": a, "b": b, "step": step}  # noqa: E731
        x = r.random()
        if name == "month" and x < 0.2:
            if r.random() < 0.5:
                return f"{MO[a - 1]}-{MO[b - 1].upper()}", rec("rng", a, b)
            return MO[a - 1].title(), rec("rng", a, a)
        if name == "day_of_week" and x < 0.35:
            if r.random() < 0.5:
                return f"{WD[a]}-{WD[b]}", rec("rng", a, b)
            return WD[a].upper(), rec("rng", a, a)
        if name == "day" and x < 0.3:
            if r.random() < 0.3:
                return "last", rec("last")
            n, w = r.randrange(6), r.randrange(7)
            return f"{OPT[n]} {WD[w]}", rec("pos", n, w)
        if x < 0.5:
            return str(a), rec("rng", a, a)
        if x < 0.65:
            return f"{a}-{b}", rec("rng", a, b)
        if x < 0.8:
            step = r.choice([1, 2, 3, 5, 7, 10, 15, 20])
            if step <= b - a:
                return f"{a}-{b}/{step}", rec("rng", a, b, step)
            return f"{a}-{b}", rec("rng", a, b)
        step = r.choice([1, 2, 3, 4, 5, 10, 15, 30])
        if x < 0.9 and step <= HIGH[name] - a:
            return f"{a}/{step}", rec("rng", a, HIGH[name], step)
        if step <= HIGH[name] - LOW[name]:
            return f"*/{step}", rec("all", step=step)
        return "*", rec("all")

    def cron(self, near, sched, given, simple=False):
        r = self.r
        t = {"k": "cron", "jit": [], "py": {"fields": {}}, "f": {}, "delayed": False}
        weights = r.choice([
            dict(year=0.05, month=0.2, day=0.2, week=0.05, day_of_week=0.2, hour=0.5, minute=0.7, second=0.3),
            dict(year=0, month=0, day=0.1, week=0, day_of_week=0.1, hour=0.6, minute=0.8, second=0.2),
            dict(year=0.2, month=0.5, day=0.6, week=0.2, day_of_week=0.3, hour=0.2, minute=0.1, second=0.1),
        ])  # fmt: skip
        crontab = not simple and r.random() < 0.15
        for name in NAMES:
            if crontab and name in ("year", "week", "second"):
                continue
            if not crontab and r.random() > weights[name]:
                continue
            if crontab and r.random() > weights[name]:
                t["f"][name], t["py"]["fields"][name] = [{"k": "all", "a": 0, "b": 0, "step": 1}], "*"
                continue
            parts = [self.expr(name) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if crontab:
                parts = [p for p in parts if " " not in p[0]] or [("*", {"k": "all", "a": 0, "b": 0, "step": 1})]
            text = ("," if crontab else r.choice([",", ", ", " , "])).join(p[0] for p in parts)
            if text.isdigit() and r.random() < 0.5:
                text = int(text)
            t["f"][name], t["py"]["fields"][name] = [p[1] for p in parts], text
        if not t["f"]:
            t["f"]["minute"], t["py"]["fields"]["minute"] = [{"k": "all", "a": 0, "b": 0, "step": 5}], "*/5"
        start = end = None
        if crontab:
            f = t["py"]["fields"]
            t["py"]["crontab"] = " ".join(str(f[n]) for n in ("minute", "hour", "day", "month", "day_of_week"))
        else:
            if r.random() < 0.25:
                start = near + timedelta(seconds=r.choice([0, 1, -1, r.randrange(-100000, 10**6)]))
            if r.random() < 0.25:
                end = self.calm(near + timedelta(seconds=r.randrange(-1000, 10 ** r.randrange(3, 8))), sched, given)
            if not simple and r.random() < 0.1 and not (sched in DST or given in DST):
                t["jit"] = [0, r.choice([1, 20, 4000]), 0]
        self.limits(t, near, sched, given, start, end)
        return t

    def calm(self, dt, *names):
        """away from changes of the clock"""
        for _ in range(4):
            for name in names:
                if name in DST:
                    z = zone(name)
                    if len({(dt + timedelta(hours=h)).astimezone(z).utcoffset() for h in range(-5, 6)}) > 1:
                        dt += timedelta(hours=14)
        return dt

    def combi(self, near, sched, depth=2):
        r = self.r
        k = r.choice(["and", "or"])
        n = r.choice([1, 2, 2, 3])
        ts = []
        anchor = near.replace(second=0, microsecond=0)
        for _ in range(n):
            x = r.random()
            if depth > 1 and x < 0.3:
                ts.append(self.combi(near, sched, depth - 1))
            elif x < 0.45:
                ts.append(self.date(anchor + timedelta(minutes=r.choice([0, 0, 1, -1, 2, 10, -60, 60])), sched, ""))
            elif x < 0.75:
                units = {"minutes": r.choice([1, 2, 3, 5, 10, 60])} if r.random() < 0.8 else {"seconds": r.choice([20, 90, 7])}
                start = anchor + timedelta(minutes=60 * r.randrange(-3, 2)) + timedelta(minutes=r.choice([0, 0, 0, 1]))
                ts.append(self.interval(start, sched, "", units, plain=True))
            else:
                t = self.cron(anchor, sched, "", simple=True)
                if r.random() < 0.7:
                    m = r.choice(["*/5", "*/2", "0", "*/10", "*"])
                    step = {"0": 0}.get(m, int(m[2:]) if "/" in m else 1)
                    rec = {"k": "all", "a": 0, "b": 0, "step": step} if step else {"k": "rng", "a": 0, "b": 0, "step": 1}
                    t["f"], t["py"]["fields"] = {"minute": [rec]}, {"minute": m}
                ts.append(t)
        twins = [x for x in ts if x["k"] == "interval"]
        if twins and r.random() < 0.3:
            # a part much like another one
            units = r.choice(twins)["py"]["units"]
            shift = r.choice([1, 400000, 999999, 10**6]) if k == "or" else 0
            ts.append(self.interval(start + timedelta(microseconds=shift), sched, "", units, plain=True))
            if r.random() < 0.6:
                ts.append(self.interval(start, sched, "", units, plain=True))
        elif ts[-1]["k"] == "cron" and k == "or" and r.random() < 0.2:
            ts.append(self.cron(anchor + timedelta(hours=1), sched, "", simple=True))
        t = {"k": k, "ts": ts, "jit": [], "py": {}, "delayed": False}
        if depth == 2 and r.random() < 0.1:
            t["jit"] = [0, r.choice([1, 30]), 0]
        if k == "or" and depth == 2 and all(x["k"] == "interval" and not x["en"] for x in ts) and r.random() < 0.3:
            for x in ts:
                if r.random() < 0.7:
                    x["jit"] = [0, r.choice([1, 30]), 0]
                    t["delayed"] = True
        return t

    def script(self):
        """(record of a trigger, scheduler's zone, start of the queries)"""
        r = self.r
        sched, given = self.zones()
        near = self.now(given or sched)
        if self.kind == "combi":
            t = self.combi(near, sched)
        elif self.kind == "cron":
            if r.random() < 0.2:
                # pytz zones, with fields that are decided within a few days
                given = "pytz:" + r.choice(DST)
                near = self.now(given[5:])
                t = self.cron(near, sched, "", simple=True)
                for n in ("year", "month", "day", "week"):
                    t["f"].pop(n, None)
                    t["py"]["fields"].pop(n, None)
                if not t["f"]:
                    t["f"]["hour"], t["py"]["fields"]["hour"] = [{"k": "rng", "a": 0, "b": 0, "step": 1}], "0"
                t["py"].pop("start_at", 0), t["py"].pop("end_at", 0)
                t["st"], t["en"], t["zone"] = [], [], given
                t["py"]["tz"], t["py"]["tzstr"] = given, False
            else:
                t = self.cron(near, sched, given)
        else:
            t = self.date(near, sched, given) if r.random() < 0.2 else self.interval(near, sched, given)
        return t, sched, near

    def queries(self, near, answer):
        """asks like the scheduler does: afresh, then after the previous answer; also after manual runs"""
        r = self.r
        now = near + timedelta(seconds=r.choice([0, 0, 1, -1, r.randrange(-3000, 3000)]))
        prev = None
        for k in range(r.choice([3, 6, 10])):
            x = r.random()
            if prev is None or x < 0.12:
                p = None
            elif x < 0.2:
                p = now  # a manual run
            else:
                p = prev
            res = answer(p, now)
            if res is None:
                if r.random() < 0.5:
                    return
                now += timedelta(seconds=r.choice([1, 60, 5000, 100000]))
                prev = None
                continue
            prev = res
            y = r.random()
            if res > now:
                now = res
            if y > 0.6:
                now += timedelta(microseconds=r.choice([1, 1000, 10**6, 6 * 10**7, r.randrange(1, 4 * 10**9)]))


TABLE = zone_table()
PATIENCE = 1  # how long to wait for answers


def ask(entries, seg, trigger, t, sched, prev, now, restored):
    """one question, recorded"""
    e = {"op": "next", "seg": seg, "tz": sched, "prev": point(prev) if prev else [], "now": point(now),
         "res": [], "off": 0, "rz": "", "err": "", "re": restored}  # fmt: skip
    z = zone(sched)
    show = zone(t["zone"]) if t.get("zone") else z
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, PATIENCE * (1.5 if t["k"] == "cron" else 0.6))
    res = None
    try:
        res = trigger.get_next_trigger_time(z, prev.astimezone(show) if prev else None, now.astimezone(z))
    except Hang:
        e["err"] = "no answer"
    except OverflowError:
        return None  # beyond the calendar
    except Exception as exc:
        e["err"] = repr(exc)[:300]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if e["err"] == "no answer" and t["k"] in ("and", "or", "cron"):
        e["err"] = "slow"  # fine only when there is no time to find, see DESIGN.md
    if res is not None:
        if res.astimezone(UTC).year > 2070 or (t.get("zone", "").startswith("pytz") and res.year > 2036):
            return None
        e["res"] = point(res)
        e["off"] = int(res.utcoffset().total_seconds())
        # pytz shows times in a gap of the clock with the old offset, the point in time is right
        e["rz"] = str(res.tzinfo) if str(res.tzinfo) in TABLE and not hasattr(res.tzinfo, "localize") else ""
    entries.append(e)
    return res.astimezone(UTC) if res is not None else None


def clean(t):
    """the record without what is only for python"""
    t = {k: v for k, v in t.items() if k != "py"}
    if "ts" in t:
        t["ts"] = [clean(x) for x in t["ts"]]
    return t


def run_one(entries, seg, t, sched, plan):
    """plan: a list of (prev, now, restore) or a function that drives an answer function; returns the script"""
    asked = []
    try:
        trigger = build(t)
    except Exception as exc:
        entries.append({"op": "trig", "seg": seg, "t": clean(t)})
        entries.append({"op": "next", "seg": seg, "tz": sched, "prev": [], "now": [0, 0, 0], "res": [], "off": 0,
                        "rz": "", "err": "construct: " + repr(exc)[:300], "re": False})  # fmt: skip
        return {"t": t, "sched": sched, "plan": []}
    entries.append({"op": "trig", "seg": seg, "t": clean(t)})
    state = {"trigger": trigger, "re": False}

    def answer(prev, now, restore=False):
        if restore:
            state["trigger"], state["re"] = pickle.loads(pickle.dumps(state["trigger"])), True
        asked.append([point(prev) if prev else [], point(now), restore])
        return ask(entries, seg, state["trigger"], t, sched, prev, now, state["re"])

    try:
        if callable(plan):
            plan(answer)
        else:
            for prev, now, restore in plan:
                answer(from_point(prev) if prev else None, from_point(now), restore)
    except Exception as exc:
        entries.append({"op": "next", "seg": seg, "tz": sched, "prev": [], "now": [0, 0, 0], "res": [], "off": 0,
                        "rz": "", "err": "restore: " + repr(exc)[:300], "re": False})  # fmt: skip
    return {"t": t, "sched": sched, "plan": asked}


def foreign_zone():
    """the local zone of the process must not matter"""
    os.environ["TZ"] = "Asia/Tokyo"
    time.tzset()


def random_chains(job):
    """job: kind, seed0, n"""
    foreign_zone()
    entries, scripts = [{"op": "zones", "zones": TABLE}], {}
    for k in range(job["n"]):
        g = Gen(job["seed0"] + k, job["kind"])
        t, sched, near = g.script()
        restore = g.r.random()

        def plan(answer, g=g, near=near, restore=restore):
            count = [0]

            def one(prev, now):
                count[0] += 1
                return answer(prev, now, restore < 0.4 and count[0] == 1 + int(restore * 10))

            g.queries(near, one)

        scripts[k] = run_one(entries, k, t, sched, plan)
    return judge(job, entries, scripts)


def replay_chains(job):
    """job: scripts"""
    global PATIENCE
    PATIENCE = job.get("patience", 1)
    foreign_zone()
    entries, scripts = [{"op": "zones", "zones": TABLE}], {}
    for k, s in enumerate(job["scripts"]):
        scripts[k] = run_one(entries, k, s["t"], s["sched"], s["plan"])
    return judge(job, entries, scripts)


def fresh_triggers(job):
    """triggers without a given start: from now"""
    from asyncz.triggers import DateTrigger, IntervalTrigger

    bads = []
    for name in ("Asia/Tokyo", "America/New_York", "UTC"):
        os.environ["TZ"] = name
        time.tzset()
        for sched in ("UTC", "Asia/Kolkata", "America/Havana"):
            for given in (None, "Europe/Berlin"):
                z = zone(sched)
                a = datetime.now(UTC)
                t = IntervalTrigger(minutes=10, **({"timezone": given} if given else {}))
                d = DateTrigger(**({"timezone": given} if given else {}))
                b = datetime.now(UTC)
                x = t.get_next_trigger_time(z, None, b)
                if not a + timedelta(minutes=10) <= x <= b + timedelta(minutes=10):
                    bads.append({"n": 0, "seg": 0, "cl": "fresh-interval", "prop": "T01", "d": f"{name} {sched} {given}: {x} at {b}"})
                x = d.get_next_trigger_time(z, None, b)
                if not a <= x <= b:
                    bads.append({"n": 0, "seg": 0, "cl": "fresh-date", "prop": "T01", "d": f"{name} {sched} {given}: {x} at {b}"})
    for b in bads:
        b["script"] = None
    return {"bads": bads, "stats": {}, "segs": 18, "entries": 36, "sample": None}


def judge(job, entries, scripts):
    trace = os.path.join(job["dir"], "trace.ndjson")
    common.write_trace(trace, entries)
    bads, stats = common.validate("TrigTrace", trace)
    out = []
    for b in bads:
        if not any(o["seg"] == b["seg"] and o["cl"] == b["cl"] for o in out):
            out.append({**b, "script": scripts[b["seg"]], "entry": entries[b["n"] - 1]})
    return {"bads": out[:40], "stats": stats, "segs": len(scripts), "entries": len(entries) - 1 - len(scripts),
            "sample": scripts[min(scripts)] if scripts else None}  # fmt: skip


# ------------------------------------------------------------------ bounded model
def model_input(kind, which, length):
    """triggers, zones and times for TrigMC; which: number of the change of the clock"""
    changes = [("Europe/Berlin", 0), ("Europe/Berlin", 1), ("America/New_York", 0), ("America/New_York", 1),
               ("Australia/Lord_Howe", 0), ("Australia/Lord_Howe", 1), ("America/Havana", 1), ("Asia/Beirut", 0),
               ("UTC", 0)]  # fmt: skip
    name, k = changes[which % len(changes)]
    if name == "UTC":
        base = datetime(2028, 2, 29, 22, tzinfo=UTC)
    else:
        tr = [x for x in TABLE[name]["tr"] if x[0] > (datetime(2026, 1, 1, tzinfo=UTC) - EPOCH).days][k]
        base = EPOCH + timedelta(tr[0], tr[1])
    q = timedelta(minutes=15)
    grid = [base + q * j for j in range(-10, 25)]
    rec = lambda k, a=0, b=0, step=1: {"k": k, "a": a, "b": b, "step": step}  # noqa: E731

    def lim(dt):
        return [] if dt is None else ["t", point(dt)]

    def form(dt):
        return ["aware", point(dt), "UTC"]

    def interval(minutes, st, en=None):
        t = {"k": "interval", "jit": [], "delayed": False, "zone": "UTC", "st": lim(st), "en": lim(en),
             "step": limbs(timedelta(minutes=minutes)), "py": {"units": {"minutes": minutes}, "start_at": form(st)}}  # fmt: skip
        if en:
            t["py"]["end_at"] = form(en)
        return t

    def cron(st=None, en=None, zname=name, **fields):
        t = {"k": "cron", "jit": [], "delayed": False, "zone": zname, "st": lim(st), "en": lim(en),
             "f": {k: v[1] for k, v in fields.items()},
             "py": {"fields": {k: v[0] for k, v in fields.items()}, "tz": zname, "tzstr": True}}  # fmt: skip
        if st:
            t["py"]["start_at"] = form(st)
        if en:
            t["py"]["end_at"] = form(en)
        return t

    def at(dt):
        return {"k": "date", "zone": "", "jit": [], "delayed": False, "at": lim(dt), "py": {"run_at": form(dt)}}

    def combi(k, *ts):
        return {"k": k, "ts": list(ts), "jit": [], "py": {}, "delayed": False}

    def num(a):
        return str(a), [rec("rng", a, a)]

    def every(s):
        return f"*/{s}", [rec("all", step=s)]

    local = base.astimezone(zone(name))
    h = local.hour
    prev = (base - timedelta(seconds=1)).astimezone(zone(name)).hour
    dow = ("sun", [rec("rng", 6, 6)])
    if kind == "plain":
        ts = [interval(m, base + q * s, base + q * e if e is not None else None)
              for m in (15, 30, 45, 60, 90) for s, e in ((-9, None), (0, None), (2, 8), (-4000, 3), (5, 5))]  # fmt: skip
        ts += [at(base), at(base + q)]
    elif kind == "cron":
        span_ = (f"{min(prev, h)}-{max(prev, h)}", [rec("rng", min(prev, h), max(prev, h))])
        ts = [
            cron(minute=every(15)), cron(minute=every(30)), cron(minute=num(0)), cron(minute=num(45)),
            cron(hour=num(h)), cron(hour=num(prev)), cron(hour=num((prev + 1) % 24)),
            cron(hour=num(prev), minute=num(30)), cron(hour=num((prev + 1) % 24), minute=num(30)), cron(hour=num(h), minute=num(15)),
            cron(hour=span_, minute=every(30)), cron(hour=every(2)), cron(hour=num(0)), cron(hour=("0,23", [rec("rng", 0, 0), rec("rng", 23, 23)])),
            cron(day_of_week=dow, hour=num(h)), cron(day=("last sun", [rec("pos", 5, 6)]), hour=num(h), minute=num(0)),
            cron(day=("last", [rec("last")]), hour=num(23)), cron(day=num(local.day)), cron(day=num(local.day), hour=num(h)),
            cron(month=num(local.month), day=num(local.day), hour=("*", [rec("all")]), minute=num(30)),
            cron(minute=every(15), st=base, en=base + q * 5), cron(minute=num(30), st=base - q, en=base + q * 7),
            cron(hour=num(h), st=base + q), cron(minute=every(15), zname="Asia/Kolkata"),
        ]  # fmt: skip
    else:
        i30, i45, i15 = interval(30, base - q * 8), interval(45, base - q * 9), interval(15, base - q * 5, base + q * 6)
        c0, c30 = cron(minute=num(0)), cron(hour=num(h), minute=num(30))
        ts = [
            combi("or", i30, i45), combi("and", i30, i45), combi("or", c0, i45), combi("and", c0, i45), combi("or", at(base + q), i45),
            combi("and", at(base + q * 6), i30), combi("and", combi("or", at(base), i45), cron(minute=every(15))),
            combi("or", combi("and", i30, i45), c30), combi("or", at(base), at(base + q * 3)), combi("and", combi("or", c0, c30), i15),
            combi("or", interval(60, base + q * 2), interval(60, base)), combi("and", cron(minute=every(30)), cron(hour=every(2), minute=every(15))),
            combi("or", i15, c30, i45), combi("and", i15, i30, i45), combi("or", i15), combi("and", i45),
            combi("and", combi("or", i45, c30), combi("or", i30, at(base + q))), combi("or", combi("or", i15, c0), interval(90, base)),
        ]  # fmt: skip
    return {"zones": {k: v for k, v in TABLE.items() if k in (name, "UTC", "", "Asia/Kolkata")},
            "trigs": [{"t": t, "sched": s} for t in ts for s in ((name, "UTC") if kind == "plain" else (name,))],
            "grid": [point(g) for g in grid], "starts": [point(base + q * j + timedelta(seconds=s)) for j, s in ((-8, 0), (-5, 1), (-1, 0), (0, 0), (1, 900 - 1), (4, 0))],
            "len": length}  # fmt: skip


def model_job(job):
    return {"input": model_input(job["kind"], job["which"], job["len"])}
