"""Jobs that drive whole schedulers: random segments and replayed scripts, checked by SchedTrace."""

from __future__ import annotations

import json
import os
import random
import signal
import traceback

import common
import gen
import hsched

LIMIT = 40  # seconds for one segment


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def _guard(fn):
    """run one segment; what went wrong outside of the recorded calls, or None"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        fn()
    except Hang:
        return "hang", traceback.format_exc()[-1500:]
    except Exception:
        return "broken", traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    return None


def random_segments(job):
    """job: profile, seed0, n"""
    h = hsched.Harness(os.path.join(job["dir"], "s"))
    os.makedirs(h.scratch, exist_ok=True)
    scripts, crashes = {}, []
    for k in range(job["n"]):
        g = gen.Gen(h, job["seed0"] + k, gen.PROFILES[job["profile"]])
        crash = _guard(g.segment)
        scripts[h.seg] = g.script
        if crash:
            crashes.append((h.seg, *crash))
            if crash[0] == "hang":
                break
    return _judge(job, h, scripts, crashes)


def replay_scripts(job):
    """job: scripts"""
    h = hsched.Harness(os.path.join(job["dir"], "s"))
    os.makedirs(h.scratch, exist_ok=True)
    scripts, crashes = {}, []
    for script in job["scripts"]:
        crash = _guard(lambda s=script: gen.replay(h, s))
        scripts[h.seg] = script
        if crash:
            crashes.append((h.seg, *crash))
            if crash[0] == "hang":
                break
    return _judge(job, h, scripts, crashes)


def explore_pairs(job):
    """job: scripts with calls at the same time, cuts: at how many places to interrupt the first one (0: everywhere), seed"""
    h = hsched.Harness(os.path.join(job["dir"], "s"))
    os.makedirs(h.scratch, exist_ok=True)
    scripts, crashes, rnd = {}, [], random.Random(job["seed"])
    for script in job["scripts"]:
        at = next(k for k, c in enumerate(script) if c[0] == "par")
        # the first try tells how many lines there are
        todo, lines = [1 << 29], 0
        while todo:
            cut = todo.pop()
            one = json.loads(json.dumps(script))
            one[at][1]["plan"] = {"cuts": [[1, cut], [2, 1 << 30]]}
            crash = _guard(lambda s=one: gen.replay(h, s))
            scripts[h.seg] = one
            if crash:
                crashes.append((h.seg, *crash))
                if crash[0] == "hang":
                    return _judge(job, h, scripts, crashes)
            if not lines:
                lines = h.par_lines[1]
                todo = list(range(1, lines + 1))
                if job["cuts"]:
                    todo = [int((k + rnd.random()) * lines / job["cuts"]) + 1 for k in range(job["cuts"])]
                    # near the places where the locks are taken and given back first
                    free = {k - 1 for k in h.par_free}
                    edge = [k for k in free if not {k - 1, k - 2, k + 1, k + 2} <= free and k > 0]
                    todo = list({*todo, *rnd.sample(sorted(edge), min(len(edge), job["cuts"]))})
    return _judge(job, h, scripts, crashes)


def _judge(job, h, scripts, crashes):
    trace = os.path.join(job["dir"], "trace.ndjson")
    common.write_trace(trace, h.entries)
    bads, stats = common.validate("SchedTrace", trace)
    out, par = [], {}
    for n, e in enumerate(h.entries, 1):
        if e["op"] == "par":
            par.setdefault(e["seg"], (n, {c["op"] for c in e["a"]["calls"]} & {"start", "shutdown", "pause", "resume"}))
    for b in bads:
        first, life = par.get(b["seg"], (b["n"], None))
        if b["n"] > first:
            # what concurrent calls left behind
            b["props"] = [*b["props"], *({"S14", "S05"} - {*b["props"]} if life else {"S14"} - {*b["props"]})]
        if not any(o["seg"] == b["seg"] and o["cl"] == b["cl"] and o["props"] == b["props"] for o in out):
            out.append({**b, "script": scripts[b["seg"]]})
    for seg, kind, text in crashes:
        out.append({"n": 0, "seg": seg, "op": scripts[seg][-1][0], "cl": kind, "props": ["*"],
                    "d": text, "script": scripts[seg]})
    ops = {}
    for e in h.entries:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    return {"bads": out[:40], "stats": stats, "segs": len(scripts), "entries": len(h.entries), "ops": ops,
            "sample": scripts[min(scripts)][:6] if scripts else []}

