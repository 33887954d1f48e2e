"""Behaviours printed by SchedMC as scripts for the harness."""

import json


# ------------------------------------------------------------------ behaviours of SchedMC
def _clean(tr):
    return {**tr, "parts": [_clean(p) for p in tr["parts"]]}


def _call(op, a):
    """a call of the model in the form the harness takes"""
    if op == "add":
        a = {k: v for k, v in a.items() if k not in ("mis", "okargs")}
        return [op, {**a, "ar": json.loads(a["ar"]), "kw": json.loads(a["kw"]), "tr": _clean(a["tr"])}]
    if op == "resched":
        return [op, {**a, "tr": _clean(a["tr"])}]
    if op == "update":
        ups = []
        for u in a["up"]:
            v = {"nrt": u["i"], "gr": u["i"], "mx": u["i"], "co": bool(u["i"]), "nm": u["s"], "tr": _clean(u["tr"])}
            ups.append({"k": u["k"], "t": u["t"], "v": None if u["t"] == "none" else v[u["k"]]})
        return [op, {"id": a["id"], "sa": a["sa"], "up": ups}]
    if op in ("pause", "resume", "setup", "round"):
        return [op, {}]
    return [op, a]


def model_script(calls, variant):
    """calls printed by SchedMC -> script; the variants differ in what must not make a difference"""
    kind = ("mem", "file", "sql")[variant % 3]
    cfg = {
        "drv": "man", "tz": ("UTC", "Europe/Berlin")[variant % 2], "t0": 0,
        "stores": [{"a": "default", "kind": kind}], "execs": [{"a": "default", "kind": "man"}],
        "gr": -2, "co": -2, "mx": -2, "retry": 10000,
    }  # fmt: skip
    return [["reset", cfg], *[_call(op, a) for op, a in calls], ["quiet", {}]]


def together(script, ops, rnd):
    """the last calls of a script at the same time, or None; what comes later shows whether slots and times are right"""
    body = [c for c in script[1:] if c[0] not in ("quiet",)]
    n = 0
    while n < 3 and n < len(body) and body[-1 - n][0] in ops:
        n += 1
    if n < 2:
        return None
    n = 2 if n == 2 or rnd.random() < 0.7 else 3
    calls = [{"op": op, "a": a} for op, a in body[-n:]]
    rnd.shuffle(calls)
    ids = sorted({c[1]["id"] for c in body if c[0] == "add"})
    runs = [["run", {"id": i, "sa": "", "force": True, "rmf": False, "obj": False}] for i in ids]
    after = [*runs, ["round", {}], ["begin", {"ex": "default", "i": 0}], ["begin", {"ex": "default", "i": 0}], ["round", {}], ["quiet", {}]]
    return [script[0], *body[:-n], ["par", {"calls": calls, "plan": {}}], *after]


def _basic(op):
    ref = {"id": "a", "sa": ""}
    trig = {"k": "int", "st": 2700, "per": 7000, "en": -1, "form": "obj"}
    return {
        "begin": ["begin", {"ex": "default", "i": 0}],
        "run": ["run", {**ref, "force": True, "rmf": False, "obj": False}],
        "round": ["round", {}],
        "pauset": ["pauset", dict(ref)],
        "resumet": ["resumet", dict(ref)],
        "del": ["del", {**ref, "obj": False}],
        "resched": ["resched", {**ref, "tr": trig}],
        "update": ["update", {**ref, "up": [{"k": "mx", "t": "int", "v": 2}, {"k": "nrt", "t": "int", "v": 4000}]}],
        "peek": ["peek", dict(ref)],
        "peekall": ["peek", {"id": "", "sa": ""}],
        "look": ["look", {**ref, "n": 3}],
        "info": ["info", {}],
        "pause": ["pause", {}],
        "resume": ["resume", {}],
        "start": ["start", {"paused": False}],
        "pstart": ["start", {"paused": True}],
        "shutdown": ["shutdown", {"wait": True}],
        "add": ["add", {"id": "a", "sa": "default", "tr": trig, "nrt": -2, "ex": "", "co": -2, "mx": -2, "gr": -2, "nm": "",
                        "rep": True, "fn": "sync_body", "ar": ["ok"], "kw": {}, "how": "call"}],
    }[op]  # fmt: skip


BASIC = ("begin", "run", "round", "pauset", "resumet", "del", "resched", "update", "add", "peek", "peekall", "look")
LIFE = ("pause", "resume", "start", "pstart", "shutdown", "info")
# whether the reference counter is right shows later
ENDING = [["shutdown", {"wait": False}], ["start", {"paused": False}], ["round", {}], ["shutdown", {"wait": False}],
          ["shutdown", {"wait": False}], ["start", {"paused": False}]]  # fmt: skip


def basic_pair(first, second, variant, stopped=False):
    """two calls for one task, which has a run on its way and is due; the second one comes while the first is on its way"""
    cfg = model_script([], variant)[0]
    add = _basic("add")
    add[1].update(tr={"k": "int", "st": 0, "per": 1000, "en": -1, "form": "obj"}, mx=1)
    head = [cfg, ["start", {"paused": False}], add, _basic("run"), ["adv", {"to": 1500}]]
    if stopped:
        head = [cfg, add]
    life = {first, second} & set(LIFE)
    if life and not stopped and variant % 3:
        head.append(["start", {"paused": False}] if variant % 3 == 1 else ["pause", {}])
    par = ["par", {"calls": [dict(zip(("op", "a"), _basic(x))) for x in (first, second)], "plan": {}}]
    tail = [["start", {"paused": False}]] if stopped else []
    if life:
        tail = [*ENDING, *tail]
    return [*head, par, *tail, _basic("run"), _basic("run"), _basic("round"), *[_basic("begin")] * 2, _basic("run"), ["quiet", {}]]
