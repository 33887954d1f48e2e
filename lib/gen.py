"""Seeded random segments for the scheduler harness."""

from __future__ import annotations

import json
import random

import hdash
from hsched import NONE, UNDEF

IDS = ["a", "b", "c", "d"]
AIDS = ["x", "y"]
SHUT = ["q", "r"]
BITS = [1 << k for k in range(17)]
ALL = (1 << 17) - 1


PAROPS = {"begin", "round", "run", "update", "resched", "pauset", "resumet", "del", "add", "peek", "look", "info",
          "start", "shutdown", "pause", "resume"}  # fmt: skip


class Profile:
    """weights of the operations and the kind of world a segment plays in"""

    def __init__(self, name, drvs, weights, execs=None, stores=None, steps=(12, 26), **opt):
        self.name, self.drvs, self.weights = name, drvs, weights
        self.execs, self.stores, self.steps, self.opt = execs, stores, steps, opt


BASE = dict(
    add=8, adv=7, round=7, update=3, resched=2, pauset=2, resumet=2, delt=1, delall=0.2, run=3,
    begin=4, release=2, quiet=1, query=0.6, preview=0.6, lookup=0.4, pause=0.5, resume=0.8,
    cycle=0.1, start=0.5, shutdown=0.4, setup=0.1, addstore=0.2, rmstore=0.15, addexec=0.2, rmexec=0.15,
    addlis=0.4, rmlis=0.2, fault=0.8, late=0.5, batch=0.2,
)  # fmt: skip


def weights(**kw):
    w = dict(BASE)
    w.update(kw)
    return w


PROFILES = {
    "mixed": Profile("mixed", ["man", "man", "man", "aio", "nat"], weights()),
    "rounds": Profile(
        "rounds", ["man"],
        weights(add=6, adv=10, round=10, update=2, query=0, preview=0, lookup=0, fault=0, run=1,
                start=0, shutdown=0, setup=0, pause=0.2, resume=1),
    ),
    "limits": Profile(
        "limits", ["man", "man", "aio"],
        weights(add=5, adv=9, round=9, run=6, begin=5, release=4, fault=0.4, query=0, preview=0,
                delall=0, shutdown=0.3, update=2, cycle=1),
        gated=True,
    ),
    "life": Profile(
        "life", ["man", "aio", "nat"],
        weights(start=6, shutdown=6, pause=3, resume=3, setup=1.5, add=7, addstore=0.6,
                addexec=0.4, fault=0.7, adv=6, round=4, query=0.3),
        shut=True,
    ),
    "outcomes": Profile(
        "outcomes", ["man", "man", "aio", "thr"],
        weights(adv=10, round=8, begin=8, release=4, late=3, add=7, query=0, preview=0, lookup=0,
                fault=0.2, update=2, cycle=0.5, batch=5),
        outcome=True,
    ),
    "faults": Profile(
        "faults", ["man", "man", "aio"],
        weights(fault=7, adv=9, round=9, add=7, addlis=1.5, update=3, run=2, query=0, preview=0),
        faulty=True,
    ),
    "listen": Profile(
        "listen", ["man", "aio"],
        weights(addlis=4, rmlis=2.5, addstore=0.8, rmstore=0.6, addexec=0.8, rmexec=0.6, query=0,
                preview=0, lookup=0),
    ),
    "edits": Profile(
        "edits", ["man"],
        weights(update=12, resched=5, pauset=4, resumet=5, delt=2, add=8, adv=5, round=4, begin=1,
                fault=1.0, lookup=0.5, start=0.8, shutdown=0.4),
    ),
    "manual": Profile(
        "manual", ["man", "man", "aio"],
        weights(run=14, adv=7, round=3, add=7, begin=4, pauset=2, shutdown=0.4),
    ),
    "inspect": Profile(
        "inspect", ["man"],
        weights(query=10, preview=8, lookup=4, add=10, pauset=3, fault=0, adv=4, round=3),
        many=True,
    ),
    "adding": Profile(
        "adding", ["man", "man", "nat"],
        weights(add=18, start=3, shutdown=2, delt=2, pauset=1.5, adv=3, round=2, addstore=0.6,
                lookup=1, run=1, fault=0.5),
    ),
    "sleep": Profile(
        "sleep", ["aio", "nat", "man"],
        weights(adv=12, add=7, update=4, resched=3, pauset=2, resumet=4, run=3, pause=1.5,
                resume=3, start=1, fault=1.5, addstore=0.4, round=5, late=1.5, query=0),
    ),
    "remote": Profile(
        "remote", ["man", "man", "aio"],
        weights(add=10, update=8, pauset=4, resumet=4, delt=2, run=8, query=3, preview=4, lookup=3, start=1, shutdown=0.8,
                adv=5, round=3, begin=4, resched=0.5, fault=1.5, probe=1.5),
        via="remote",
    ),
    "dash": Profile(
        "dash", ["man", "man", "aio"],
        weights(add=8, dact=12, dfault=2, dedit=7, dcreate=5, update=0.5, pauset=0.5, resumet=0.5, delt=0.3, run=0.5, query=0, preview=0,
                lookup=0, start=1, shutdown=0.8, adv=4, round=3, begin=4, resched=0.3, fault=0, batch=0),
        via="dash",
    ),
    "par": Profile(
        "par", ["man"],
        weights(par=14, add=7, adv=8, round=2, begin=5, pauset=1.5, update=2, run=1, fault=0, cycle=0, quiet=1, query=0,
                preview=0, lookup=0, start=0.3, shutdown=0.1, setup=0, addstore=0, rmstore=0, addexec=0, rmexec=0, late=0, delall=0.1),
        par=True, steps=(8, 18),
    ),
}  # fmt: skip


class Gen:
    def __init__(self, harness, seed, profile):
        self.h = harness
        self.rnd = random.Random(f"{seed}/{profile.name}")
        self.p = profile
        self.IDS = IDS
        self.script = []

    # ------------------------------------------------------------------ world
    def pick(self, *items):
        return self.rnd.choice(items)

    def chance(self, p):
        return self.rnd.random() < p

    def config(self):
        rnd, opt = self.rnd, self.p.opt
        drv = self.pick(*self.p.drvs)
        thr = drv == "thr"
        if thr:
            drv = "man"
        execs = []
        names = ["e1", "e2"]
        kinds = {"man": ["man", "man", "dbg", "aio"], "aio": ["aio", "aio", "dbg", "man"],
                 "nat": ["aio", "dbg", "man"]}[drv]  # fmt: skip
        if opt.get("via") == "dash":  # several runs in one call: each at the time of the call
            kinds = [k for k in kinds if k != "dbg"]
        if opt.get("par"):
            kinds = ["man"]
        if opt.get("gated"):
            kinds = ["man", "man", "aio"]
        for name in names:
            execs.append({"a": name, "kind": self.pick(*kinds)})
        if thr or (opt.get("gated") and self.chance(0.25)):
            execs[0]["kind"] = "thr"
        if self.chance(0.3):
            execs.append({"a": "default", "kind": self.pick("man", "dbg", "aio") if opt.get("via") != "dash" and not opt.get("par") else "man"})
        execs.append({"a": "e9", "kind": "aio"})
        stores = [{"a": "s1", "kind": self.pick("mem", "mem", "file", "sql")}]
        if self.chance(0.5):
            stores.append({"a": "s2", "kind": self.pick("mem", "mem", "mem", "file")})
        if self.chance(0.4):
            stores.append({"a": "default", "kind": self.pick("mem", "mem", "sql")})
        rnd.shuffle(stores)
        self.kind = {e["a"]: e["kind"] for e in execs}
        self.kind.setdefault("default", "man" if drv == "man" else "aio")
        self.thr = any(e["kind"] == "thr" for e in execs)
        cfg = {
            "drv": drv,
            "tz": self.pick("UTC", "UTC", "Europe/Berlin", "America/New_York", "Asia/Tokyo"),
            "t0": rnd.choice([0, 500, 1000, 12345, 59000]),
            "stores": stores,
            "execs": execs,
            "gr": self.pick(UNDEF, 500, 1000, 3000, 20000, 2_000_000_000),
            "co": self.pick(UNDEF, 0, 1),
            "mx": self.pick(UNDEF, 1, 2, 3),
            "retry": self.pick(2000, 5000, 10000),
        }
        # the wall clock is set back after a few seconds (02:59:5x -> 02:00:00 / 01:59:5x -> 01:00:00)
        if opt.get("via"):
            cfg["via"] = opt["via"]
        self.fold = self.chance(0.15)
        if self.fold:
            cfg["tz"], cfg["epoch"] = self.pick(("Europe/Berlin", "2030-10-27T01:00:00"), ("America/New_York", "2030-11-03T06:00:00"))
            cfg["fold"] = self.pick(3, 8, 20, 61)
        if self.chance(0.12):
            cfg["lock"], cfg["delay"] = True, self.pick(0, 1000, 4000)
        self.cfg = cfg
        if opt.get("via"):
            # (the forms of lilya decode "%" and "+" twice)
            texts = ("c \u00fc?&#", "c.=;") if opt["via"] == "dash" else ("c \u00fc?&%41#", "c.+=;")
            odd = self.pick("c", *texts, *([] if any(s["kind"] == "file" for s in stores) else ["c/d", "c/run"]))
            self.IDS = ["a", "b", odd, "d"]
        aliases = [s["a"] for s in stores] + ["default"]
        self.store_of = {i: self.pick(*aliases) for i in self.IDS + AIDS + SHUT}
        if self.chance(0.08):
            self.store_of[self.pick(*self.IDS)] = "nostore"
        self.extra = 0
        self.lis, self.n_lis = [], 0
        return cfg

    # ------------------------------------------------------------------ values
    @property
    def now(self):
        return self.h.now_ms()

    def tasks(self):
        for e in reversed(self.h.entries):
            if e["post"]:
                return e["post"]["tasks"]
        return []

    def st(self):
        for e in reversed(self.h.entries):
            if e["post"]:
                return e["post"]["st"]
        return "stopped"

    def t_near(self, lo=-4000, hi=9000):
        return max(0, self.now + self.rnd.randrange(lo, hi + 1, 500))

    def interval(self, tr):
        tr.setdefault("en", NONE)
        return tr

    def trigger(self, depth=0):
        r = self.rnd.random()
        now = self.now
        form = self.pick("obj", "alias")
        if r < 0.18:
            return {"k": "date", "at": self.t_near(), "form": form}
        if r < 0.26 and depth == 0:
            return self.pick({"k": "datenow", "form": "alias"},
                             {"k": "intnow", "form": "alias", "per": self.pick(1000, 2500, 4000)})
        if r < 0.55:
            per = self.pick(500, 1000, 1000, 1500, 2000, 3000, 7000)
            en = NONE if self.chance(0.7) else now + self.rnd.randrange(0, 12001, 500)
            return {"k": "int", "st": self.t_near(), "per": per, "en": en, "form": form}
        if r < 0.68:
            en = NONE if self.chance(0.8) or form == "alias" else now + self.rnd.randrange(0, 15001, 500)
            if self.fold:
                # cron triggers may leave out or take repeated wall clock times
                return {"k": "int", "st": self.pick(1000, 2000), "per": 4000, "en": en, "form": form}
            return {"k": "cron", "per": self.pick(1000, 2000, 5000, 10000), "en": en, "form": form}
        if r < 0.88 or depth:
            self.extra += 1
            n = self.rnd.randrange(1, 6)
            ts = sorted({max(0, now + self.rnd.randrange(-3000, 15000, 500)) for _ in range(n)})
            return {"k": "list", "ts": [t + self.extra % 7 for t in ts], "form": "obj"}
        if r < 0.94:
            parts = [self.strip(self.trigger(1)) for _ in range(self.pick(2, 2, 3))]
            return {"k": "or", "parts": parts, "form": "obj"}
        # combined with AND: parts with a common grid
        st = self.t_near(-4000, 2000)
        p1, p2 = self.pick((1000, 2000), (2000, 3000), (1000, 3000), (1500, 1000))
        parts = [{"k": "int", "st": st, "per": p1, "en": NONE},
                 {"k": "int", "st": st + self.pick(0, 0, p1 * p2 // 1000), "per": p2,
                  "en": NONE if self.chance(0.7) else st + 12000}]
        if self.chance(0.3):
            parts.append({"k": "list", "ts": [st + 6000 * k for k in range(4)]})
        return {"k": "and", "parts": parts, "form": "obj"}

    @staticmethod
    def strip(tr):
        return {k: v for k, v in tr.items() if k != "form"}

    def args(self, ident, ex):
        """arguments of the body, which tell it what to do"""
        kind = self.kind.get(ex or "default", "man")
        if ident in SHUT:
            key = self.pick("ok", "ok", "err")
        elif ident in AIDS:
            key = self.pick("ok", "err", "yield", "gate", "gateerr"[:4], "ok")
        else:
            keys = ["ok"] * 5 + ["err", "once"]
            if self.p.opt.get("faulty"):
                keys += ["err", "once"]
            if kind == "thr":
                keys += ["gate"] * 5
            if kind in ("man", "dbg"):
                keys += ["adv"] * (4 if self.p.opt.get("outcome") else 1)
            if kind in ("man", "thr"):
                keys += ["base"]
            if kind == "dbg":
                keys += ["self" + ident]
            key = self.pick(*keys)
        key += self.pick("", "", "", ":1", ":2") if not key.startswith("self") else ""
        n = self.pick(0, 500, 1000, 2500)
        form = self.rnd.randrange(5)
        if form == 0:
            return [key], {"n": n}
        if form == 1:
            return [], {"key": key, "n": n}
        if form == 2:
            return [key, n], {"opt": self.pick("u", "v")}
        return [key, n], {}

    def op_name(self):
        w = self.p.weights
        return self.rnd.choices(list(w), list(w.values()))[0]

    def ident(self, known=0.8):
        tasks = self.tasks()
        if tasks and self.chance(known):
            t = self.pick(*tasks)
            return t["id"], self.pick("", t["sa"])
        i = self.pick(*(self.IDS + AIDS + SHUT))
        return i, self.pick("", "", self.store_of[i], "s1")

    def ident_of(self, ids):
        return [t for t in self.tasks() if t["id"] in ids]

    # ------------------------------------------------------------------ operations
    captured = None

    def do(self, op, **a):
        if self.captured is not None:
            self.captured.append({"op": op, "a": a})
            return
        self.script.append([op, a])
        self.h.do(op, **a)

    def g_add(self):
        many = self.IDS + AIDS + (SHUT if self.chance(0.5) or self.p.opt.get("shut") else [])
        i = self.pick(*(many if not self.p.opt.get("par") else self.IDS))
        shut = i in SHUT and self.chance(0.85)
        tr = {"k": "shut", "form": self.pick("obj", "alias")} if shut else self.trigger()
        sa = self.store_of[i]
        if i in AIDS:
            ex = "e9"
        elif i in SHUT:
            ex = "e9" if self.chance(0.5) else ""
        else:
            ex = self.pick("", "e1", "e1", "e2", "e2") if self.chance(0.96) else "noexec"
        how = self.pick("call", "call", "call", "obj", "deco") if not self.p.opt.get("via") else "call"
        nrt = UNDEF
        if not shut and self.chance(0.22):
            nrt = NONE if self.chance(0.4) and how != "deco" else self.t_near()
        fn = "async_body" if i in AIDS else "sync_body"
        if i in SHUT:
            fn = self.pick("shut_body", "ashut_body") if shut and ex == "e9" else "shut_body"
        ar, kw = self.args(i, ex)
        if self.kind.get(ex or "default") in ("thr", "aio", "dbg") and i in self.IDS:
            pass
        if self.chance(0.03):
            ar = self.pick([], ["ok", 1, 2, 3])
        mx = UNDEF if self.chance(0.55) else self.pick(1, 1, 2, 3)
        if ar and str(ar[0]).startswith("self") or str(kw.get("key", "")).startswith("self"):
            mx = 1
        if self.chance(0.02):
            mx = self.pick(0, -1)
        self.do(
            "add", id=i, sa="" if sa == "default" and self.chance(0.5) else sa, tr=tr, nrt=nrt, ex=ex,
            co=self.pick(UNDEF, UNDEF, 0, 1), mx=mx,
            gr=self.pick(UNDEF, UNDEF, UNDEF, NONE, 500, 1000, 1500, 4000, 30000, 2_000_000_000),
            nm=self.pick("", "", "job " + i, "Zed"), rep=self.chance(0.4), fn=fn, ar=ar, kw=kw, how=how,
        )  # fmt: skip

    def g_update(self):
        i, sa = self.ident(0.92)
        cur = [t for t in self.tasks() if t["id"] == i]
        ex = cur[0]["ex"] if cur else ""
        ups, keys = [], []
        for _ in range(self.pick(1, 1, 1, 2, 2, 3)):
            k = self.pick("nrt", "nrt", "gr", "mx", "co", "nm", "ex", "tr", "ar", "kw", "id", "zz", "fn")
            if k in keys:
                continue
            keys.append(k)
            bad = self.chance(0.12)
            selfy = bool(cur) and '"self' in cur[0]["ar"] + cur[0]["kw"]
            if k == "nrt":
                if cur and cur[0]["tr"]["k"] == "shut":
                    continue
                ups.append({"k": k, "t": "none", "v": None} if self.chance(0.25)
                           else {"k": k, "t": "int", "v": self.t_near(-2000)})
            elif k == "gr":
                v = self.pick(("none", None), ("int", 1000), ("int", 2000), ("int", self.pick(2_000_000_000, 1_999_999_999)))
                v = self.pick(("int", 0), ("str", "soon"), ("int", -1000)) if bad else v
                ups.append({"k": k, "t": v[0], "v": v[1]})
            elif k == "mx":
                v = ("int", 1) if selfy else self.pick(("int", 1), ("int", 2), ("int", 3))
                v = self.pick(("int", 0), ("int", -2), ("str", "many"), ("none", None)) if bad else v
                ups.append({"k": k, "t": v[0], "v": v[1]})
            elif k == "co":
                ups.append({"k": k, "t": "bool", "v": self.chance(0.5)})
            elif k == "nm":
                ups.append({"k": k, "t": "str", "v": "" if bad else self.pick("n1", "N2", "job x")})
            elif k == "ex":
                if i in AIDS or i in SHUT or self.gated_task(cur):
                    continue
                ups.append({"k": k, "t": "int", "v": 5} if bad
                           else {"k": k, "t": "str", "v": self.pick("e1", "e2")})
            elif k == "tr":
                ups.append({"k": k, "t": "str", "v": "daily"} if bad
                           else {"k": k, "t": "trig", "v": self.strip(self.safe_trigger())})
            elif k in ("ar", "kw"):
                if "ar" in keys and "kw" in keys:
                    continue
                ar, kw = self.args(i, ex)
                if '"self' in str(ar) + str(kw) or "self" in str(ar) + str(kw):
                    continue
                if bad:
                    ups.append({"k": "ar", "t": "str", "v": "xyz"} if self.chance(0.3)
                               else {"k": "ar", "t": "list", "v": ["ok", 1, 2, 3, 4]})
                    keys.append("kw")
                else:
                    # both, so that they fit together
                    ups.append({"k": "ar", "t": "list", "v": ar})
                    ups.append({"k": "kw", "t": "dict", "v": kw})
                    keys += ["ar", "kw"]
            elif k == "id":
                if self.chance(0.3):
                    ups.append({"k": "id", "t": "str", "v": "newid"})
            elif k == "fn":
                if bad:
                    ups.append({"k": "fn", "t": "int", "v": 7})
                elif i in self.IDS:
                    ups.append({"k": "fn", "t": "fn", "v": self.pick("sync_body", "shut_body")})
            elif self.chance(0.2):
                ups.append({"k": "zz", "t": "int", "v": 1})
        if ups:
            self.do("update", id=i, sa=sa, up=ups, obj=self.chance(0.25))

    def gated_task(self, cur):
        """its body only works on the kind of executor it has"""
        return bool(cur) and any(w in cur[0]["ar"] + cur[0]["kw"] for w in ('"gate', '"adv', '"base', '"self'))

    def safe_trigger(self):
        while True:
            tr = self.trigger()
            if tr["k"] not in ("datenow", "intnow"):
                return tr

    def g_resched(self):
        i, sa = self.ident(0.92)
        self.do("resched", id=i, sa=sa, tr=self.trigger(), obj=self.chance(0.2))

    def g_pauset(self):
        i, sa = self.ident(0.92)
        self.do("pauset", id=i, sa=sa, obj=self.chance(0.2))

    def g_resumet(self):
        paused = [t for t in self.tasks() if t["nrt"] == NONE]
        if paused and self.chance(0.6):
            t = self.pick(*paused)
            i, sa = t["id"], self.pick("", t["sa"])
        else:
            i, sa = self.ident(0.92)
        self.do("resumet", id=i, sa=sa, obj=self.chance(0.2))

    def g_delt(self):
        i, sa = self.ident(0.85)
        self.do("del", id=i, sa=sa, obj=self.chance(0.2))

    def g_delall(self):
        self.do("delall", sa=self.pick("", "s1", "default"))

    def g_run(self):
        i, sa = self.ident(0.93)
        self.do("clear")
        if self.chance(0.12):
            self.do("fault", at=self.pick("look", "exec"), key="*", n=1)
        self.do("run", id=i, sa=sa, force=self.chance(0.75), rmf=self.chance(0.7), obj=self.chance(0.2))
        self.do("clear")

    def g_adv(self):
        now = self.now
        nrts = sorted(t["nrt"] for t in self.tasks() if t["nrt"] > now)
        if nrts and self.chance(0.75):
            to = self.pick(nrts[0], nrts[0], nrts[-1]) + self.pick(0, 0, 0, 1, 500, 2000, 5000)
        else:
            to = now + self.pick(1, 500, 1000, 3000, 10000)
        # the model lists all due run times one by one
        to = min(to, now + 25000)
        self.do("adv", to=to)
        if self.cfg["drv"] == "man" and self.chance(0.75):
            self.do("round")

    def g_late(self):
        self.do("late", to=self.now + self.pick(200, 1000, 4000, 9000))

    def g_round(self):
        if self.cfg["drv"] == "man":
            self.do("round")

    def g_begin(self):
        names = [n for n, k in self.kind.items() if k == "man"]
        if names:
            if self.chance(0.4):
                self.do("adv" if self.cfg["drv"] == "man" else "late",
                        to=self.now + self.pick(500, 1000, 3000))
            for _ in range(self.pick(1, 1, 2, 4)):
                self.do("begin", ex=self.pick(*names), i=self.rnd.randrange(4))

    def p_begin(self):
        self.do("begin", ex=self.pick(*[n for n, k in self.kind.items() if k == "man"]), i=self.rnd.randrange(4))

    def g_batch(self):
        """several runs in one submission, which take their time"""
        i, per, now = self.pick(*self.IDS), self.pick(500, 1000, 2000), self.now
        ex = self.pick("", "e1", "e2")
        self.do("add", id=i, sa=self.store_of[i], tr={"k": "int", "st": now + per, "per": per, "en": self.pick(NONE, now + 4 * per),
                "form": "obj"}, nrt=UNDEF, ex=ex, co=0, mx=self.pick(UNDEF, 1, 3), gr=self.pick(500, 1000, 1500, 2500, 4000, NONE, 2_000_000_000),
                nm="", rep=True, fn="sync_body", ar=[self.pick("adv", "adv", "adv:1", "ok"), self.pick(200, 500, 1000, 2500)], kw={},
                how="call")  # fmt: skip
        self.do("adv" if self.cfg["drv"] == "man" else "late", to=now + self.pick(2, 3, 4) * per + self.pick(0, 0, 100, 400))
        self.g_round()
        if self.kind.get(ex or "default", "man") == "man":
            for _ in range(self.pick(1, 3)):
                self.do("begin", ex=ex or "default", i=self.rnd.randrange(3))

    def g_release(self):
        self.do("release", i=self.rnd.randrange(4))

    def g_quiet(self):
        self.do("quiet")

    def g_query(self):
        self.do(
            "query", sa=self.pick("", "", "s1", "default"), ss=self.pick("", "", "scheduled", "paused", "pending"),
            ex=self.pick("", "", "", "e1", "default"),
            tg=self.pick("", "", "", "interval", "DateTrigger", "cron", "HLIST", "shutdown"),
            q=self.pick("", "", "", "A", "job", "int", "e1", "PAUS", "zzz"),
            sort=self.pick("", "id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger",
                           *(["bogus"] if self.chance(0.3) else [])),
            desc=self.chance(0.5),
        )  # fmt: skip

    def g_preview(self):
        i, sa = self.ident(0.93)
        self.do("preview", id=i, sa=sa, n=self.pick(0, 1, 2, 3, 5, 5, 10, 50, 51),
                now=NONE if self.chance(0.7) else self.t_near())

    # ------------------------------------------------------------------ dashboard
    def g_dact(self, act=None):
        act = act or self.pick("run", "run", "pause", "resume", "remove")
        known = list(dict.fromkeys(t["id"] for t in self.tasks()))
        if act == "remove" and self.chance(0.5):
            act = "run"
        if self.chance(0.35):
            i, _ = self.ident(0.9)
            if "/" not in i:
                self.do("dact", act=act, ids=[i], form="one")
                return
        pool = [*known, self.pick("nope", *self.IDS, *AIDS)]
        ids = [self.pick(*pool) for _ in range(self.pick(1, 2, 3, 3, 4))]
        if self.chance(0.3) and len(known) > 1:
            ids = self.rnd.sample(known, len(known))
        form = self.pick("json", "json", "mixed", "comma")
        self.do("dact", act=act, ids=ids, form=form)

    def g_dfault(self):
        """a store or an executor fails while the dashboard works"""
        act = self.pick("run", "run", "pause", "resume", "remove")
        kept = [t["id"] for t in self.tasks() if self.kept(t)]
        self.do("clear")
        if act == "run":
            self.do("fault", at="exec", key=self.pick("e1", "e2", "default"), n=99)
        elif act in ("pause", "resume") and kept:
            self.do("fault", at="upd", key=self.pick(*kept), n=99)
        elif act == "remove" and self.tasks():
            self.do("fault", at="del", key=self.pick(*self.tasks())["id"], n=99)
        elif self.chance(0.5):
            self.do("fault", at="look", key="*", n=99)
        self.g_dact(act)
        self.do("clear")

    def g_dedit(self):
        i, _ = self.ident(0.92)
        if "/" in i:
            return
        cur = [t for t in self.tasks() if t["id"] == i]
        new = {}

        def put(k, v, text, bad=False):
            new[k] = {"v": v, "text": text, "bad": bad}

        for _ in range(self.pick(0, 1, 1, 2, 3)):
            k = self.pick("nm", "fn", "ex", "ar", "co", "mx", "gr")
            bad = self.chance(0.2)
            if k == "nm":
                v = self.pick("n1", "N 2", "<b>&")
                put(k, None, self.pick("", "  "), True) if bad else put(k, v, self.pick(v, f" {v} "))
            elif k == "fn":
                v = self.pick("sync_body", "shut_body")
                if bad:
                    put(k, None, self.pick("hbodies:nope", "nope", "", "nomod:x"), True)
                elif i not in AIDS + SHUT:
                    put(k, v, "hbodies:" + v)
            elif k == "ex":
                if bad:
                    put(k, None, " ", True)
                elif i not in AIDS + SHUT and not self.gated_task(cur):
                    put(k, *2 * [self.pick("e1", "e2")])
            elif k == "ar":
                ar, kw = self.args(i, cur[0]["ex"] if cur else "")
                if "self" in str(ar) + str(kw):
                    continue
                if bad:
                    what = self.pick(("ar", "nojson"), ("ar", '"ok"'), ("ar", "{}"), ("kw", "[]"), ("kw", "{"))
                    put(what[0], None, what[1], True)
                elif self.chance(0.1):
                    put("ar", ["ok", 1, 2, 3, 4], '["ok", 1, 2, 3, 4]')
                else:
                    put("ar", ar, json.dumps(ar))
                    put("kw", kw, json.dumps(kw) if kw else self.pick("", "{}"))
            elif k == "co":
                v = self.chance(0.5)
                put(k, None, "maybe", True) if bad else put(k, v, self.pick(*(("true", "1", "YES", "on") if v else ("false", "0", "No", "off"))))
            elif k == "mx":
                v = self.pick(1, 2, 3)
                put(k, None, self.pick("0", "-1", "x", "1.5", ""), True) if bad else put(k, v, str(v))
            elif k == "gr":
                v = self.pick(None, 500, 1500, 3000, 2_000_000_000, 1_999_999_999)
                text = {None: "", 500: "0.5", 1500: "1.50", 3000: "3", 2_000_000_000: "inf", 1_999_999_999: "1e13"}[v]
                put(k, None, self.pick("0", "-2", "soon"), True) if bad else put(k, v, text)
        if cur and any('"self' in t["ar"] + t["kw"] for t in cur):
            new.pop("mx", None)
        self.do("dedit", id=i, intent=self.pick("apply", "apply", "apply", "preview"), set=new)

    def g_dcreate(self):
        if len(self.tasks()) > 12:
            return
        now, bad = self.now, self.chance(0.25)
        r = self.rnd.random()
        if r < 0.5:
            n, unit = self.pick((1, "s"), (2, "s"), (5, "s"), (7, ""), (1, "m"), (1, "h"))
            tt, tv, tr = "interval", f"{n}{unit}", {"k": "intnow", "per": n * {"s": 1000, "": 1000, "m": 60000, "h": 3600000}[unit]}
        elif r < 0.75 and not self.fold:
            n = self.pick(1, 2, 5)
            tt, tv, tr = "cron", f"*/{n} * * * *", {"k": "cron", "per": n * 60000}
        else:
            at = self.t_near()
            tt, tv, tr = "date", self.h.iso(at), {"k": "date", "at": at}
        ar, kw = self.args("a", "")
        fn, sar, skw = "hbodies:sync_body", json.dumps(ar), json.dumps(kw) if kw else self.pick("", "{}")
        sa = self.pick("", "default", "s1", " s1 ", *(["nostore"] if self.chance(0.2) else []))
        if "self" in sar + skw:
            return
        if bad:
            what = self.pick("fn", "tv", "tt", "ar", "kw")
            fn = self.pick("nope", "hbodies:nope", "nomod:x") if what == "fn" else fn
            tv = {"interval": "often", "cron": "* * * *", "date": "tomorrow"}[tt] if what == "tv" else tv
            tt = "weekly" if what == "tt" else tt
            sar = self.pick("[", "7", '{"a": 1}') if what == "ar" else sar
            skw = self.pick("{", "[]", "7") if what == "kw" else skw
        elif self.chance(0.08):
            sar, skw = '["ok", 1, 2, 3]', ""
        self.do("dcreate", fn=fn, nm=self.pick("", "made", "job"), sa=sa, tt=tt, tv=tv, tr={**tr, "en": NONE}, ar=sar, kw=skw, bad=bad)

    def g_probe(self):
        """requests for which there is no right token"""
        i, sa = self.ident(0.9)
        n = self.pick(1, 3, len(hdash.ENDPOINTS))
        self.do("probe", id=i, what=sorted(self.rnd.sample(list(hdash.ENDPOINTS), n)), tok=self.pick(*hdash.WRONG))

    def g_peek(self):
        i, sa = self.ident(0.9)
        self.do("peek", id=self.pick(i, i, ""), sa=sa if self.chance(0.5) else "")

    def g_look(self):
        i, sa = self.ident(0.9)
        self.do("look", id=i, sa=sa if self.chance(0.5) else "", n=self.pick(1, 3, 5))

    def g_life(self):
        """what changes the state of the scheduler"""
        op = self.pick("pause", "resume", "start", "shutdown", "shutdown", "info")
        self.do(op, **({"paused": self.chance(0.2)} if op == "start" else {"wait": self.chance(0.5)} if op == "shutdown" else {}))

    def g_lookup(self):
        i, sa = self.ident(0.7)
        self.do("lookup", id=i, sa=sa)

    def g_pause(self):
        self.do("pause")

    def g_resume(self):
        self.do("resume")

    def g_start(self):
        if self.pools_closed():
            return
        # a failing store is only modelled for the first one to start
        fail = self.st() == "stopped" and self.chance(0.25)
        if fail:
            self.do("fault", at="ststart", key="*", n=1)
        self.do("start", paused=self.chance(0.15))
        if fail:
            self.do("clear")
            self.do("start", paused=False)

    def pools_closed(self):
        return "thr" in self.kind.values() and any(e["op"] == "shutdown" for e in self.h.entries[-400:] if e["seg"] == self.h.seg)

    def g_shutdown(self):
        self.do("shutdown", wait=self.chance(0.5))

    def g_setup(self):
        if self.st() != "stopped":
            self.do("setup")

    def g_addstore(self):
        al = self.pick("s3", "s1", "default", "nostore")
        self.do("addstore", al=al, kind="mem" if "/" in self.IDS[2] else self.pick("mem", "mem", "file"))

    def g_rmstore(self):
        self.do("rmstore", al=self.pick("s1", "s2", "s3", "nope"))

    def g_addexec(self):
        al = self.pick("e3", "e1", "e2")
        kind = self.pick("man", "dbg") if self.p.opt.get("via") != "dash" else "man"
        if al != "e3":
            kind = "man"
        if al not in self.kind or self.kind[al] == kind:
            self.do("addexec", al=al, kind=kind)
            self.kind.setdefault(al, kind)

    def g_par(self):
        """two or three calls at the same time"""
        if self.st() != "running" and self.chance(0.8):
            self.do("start" if self.st() == "stopped" else "resume", **({"paused": False} if self.st() == "stopped" else {}))
        self.captured = []
        for _ in range(self.pick(2, 2, 2, 3)):
            n = len(self.captured)
            while len(self.captured) == n:
                self.pick(self.g_round, self.g_round, self.g_run, self.g_run, self.g_update, self.g_resched, self.g_pauset,
                          self.g_resumet, self.g_delt, self.g_add, self.p_begin, self.p_begin, self.g_peek, self.g_look, self.g_life)()  # fmt: skip
        calls, self.captured = [c for c in self.captured if c["op"] in PAROPS][:3], None
        if len(calls) > 1:
            plan = {"mode": self.pick("walk", "pct", "pct"), "seed": self.rnd.randrange(1 << 30), "switch": self.pick(1, 2, 3),
                    "span": self.pick(60, 200, 500)}  # fmt: skip
            self.do("par", calls=calls, plan=plan)
            if self.chance(0.5):
                for i in sorted({c["a"]["id"] for c in calls if c["op"] in ("run", "update", "resched", "resumet")}) or self.IDS[:2]:
                    self.do("run", id=i, sa="", force=True, rmf=False, obj=False)

    def g_rmexec(self):
        self.do("rmexec", al=self.pick("e1", "e2", "e3", "nope"))

    def g_cycle(self):
        """a run on the event loop is cancelled (executor removed, or scheduler stopped), then another one is wanted"""
        i = self.pick(*AIDS)
        self.do("clear")
        self.do("add", id=i, sa=self.store_of[i], tr={"k": "int", "st": self.now + 60000, "per": 9000, "en": NONE, "form": "obj"},
                nrt=UNDEF, ex="e9", co=UNDEF, mx=self.pick(UNDEF, 1, 1, 2), gr=UNDEF, nm="", rep=True, fn="async_body",
                ar=[self.pick("gate", "gate", "yield"), 0], kw={}, how="call")  # fmt: skip
        for _ in range(self.pick(1, 1, 2, 3)):
            self.do("run", id=i, sa="", force=True, rmf=False, obj=False)
        if self.chance(0.3):
            self.do("adv", to=self.now + 500)
        if self.chance(0.6) or "thr" in self.kind.values():
            self.do("rmexec", al="e9")
            if self.chance(0.3):
                self.do("run", id=i, sa="", force=True, rmf=False, obj=False)
            self.do("addexec", al="e9", kind="aio")
        else:
            self.do("shutdown", wait=self.chance(0.5))
            if self.chance(0.5):
                self.do("adv", to=self.now + 500)
            self.do("start", paused=False)
        for _ in range(self.pick(1, 2)):
            self.do("run", id=i, sa="", force=True, rmf=False, obj=False)

    def g_addlis(self):
        for _ in range(self.pick(1, 1, 1, 2, 3)):
            self.addlis()

    def addlis(self):
        self.n_lis += 1
        name = f"l{self.n_lis}"
        self.lis.append(name)
        mask = self.pick(ALL, ALL, self.rnd.getrandbits(17), self.pick(*BITS), 512 | 1024 | 2048, 4096 | 8192 | 16384)
        beh = self.pick("ok", "ok", "err", "base")
        if not self.thr and self.chance(0.4):
            k = self.n_lis
            beh = self.pick(f"off:{name}", f"off:l{k + 1}", f"off:l{max(1, k - 1)}", f"on:m{k}")
        self.do("addlis", l=name, mask=mask, beh=beh)

    def g_rmlis(self):
        if self.lis and self.chance(0.85):
            name = self.pick(*self.lis)
            self.lis.remove(name)
            if name not in self.h.listeners:
                return
        else:
            name = "none"
        self.do("rmlis", l=name)

    def kept(self, t):
        return any(s["a"] == t["sa"] and s["kind"] != "mem" for s in self.cfg["stores"])

    def g_fault(self):
        tasks = self.tasks()
        now = self.now
        due = [t for t in tasks if t["nrt"] != NONE and t["nrt"] <= now] or tasks
        kind = self.rnd.random()
        if kind < 0.72:
            at = self.pick("due", "lock", "next", "upd", "del", "trig", "exec", "upd", "exec")
            key = "*"
            if at == "upd":
                key = self.pick(*[t["id"] for t in due if self.kept(t)], "-")
            elif at == "del" and due:
                key = self.pick(*due)["id"]
            elif at in ("due", "next", "lock"):
                key = self.pick("s1", "s2", "default")
            elif at == "exec":
                key = self.pick("e1", "e2", "default", "*")
            self.do("fault", at=at, key=key, n=self.pick(1, 1, 2))
            if at != "trig":
                nrts = sorted(t["nrt"] for t in tasks if t["nrt"] > now)
                if nrts and len(due) == len(tasks):
                    self.do("adv", to=min(nrts[0] + self.pick(0, 500, 3000), now + 25000))
            if self.cfg["drv"] == "man":
                self.do("round")
            else:
                self.do("adv", to=self.now + 1000)
            if self.chance(0.7):
                self.do("clear")
                if self.chance(0.7):
                    if self.cfg["drv"] == "man":
                        self.do("adv", to=self.now + self.cfg["retry"])
                        self.do("round")
                    else:
                        self.do("adv", to=self.now + self.cfg["retry"])
            self.do("clear")
        else:
            kept = [t["id"] for t in tasks if self.kept(t)]
            at = self.pick("look", "upd", "del", "add", "trig")
            # an update of a memory store cannot fail: the store holds the task itself
            key = "*" if at != "upd" else self.pick(*kept, "-")
            self.do("fault", at=at, key=key, n=1)
            self.pick(self.g_update, self.g_resched, self.g_pauset, self.g_resumet, self.g_delt, self.g_add)()
            self.do("clear")

    # ------------------------------------------------------------------ segment
    def segment(self):
        cfg = self.config()
        self.script = [["reset", cfg]]
        self.h.reset(cfg)
        if self.chance(0.35):
            for _ in range(self.rnd.randrange(1, 4)):
                self.g_add()
        if self.p.name not in ("adding",) or self.chance(0.6):
            self.do("start", paused=self.chance(0.1))
        for _ in range(self.rnd.randrange(*self.p.steps)):
            getattr(self, "g_" + self.op_name())()
        self.do("quiet")
        if self.thr or self.chance(0.5):
            self.do("shutdown", wait=True)
            self.do("quiet")
        return self.script


def replay(h, script):
    for op, a in script:
        if op == "reset":
            h.reset(a)
        else:
            h.do(op, **a)
