"""T01..T03: the real triggers against Trig / TrigTrace; the bounded model TrigMC."""

from __future__ import annotations

import concurrent.futures
import json
import os
import random
import shutil
import time

from common import CORES, ToolError, again, call_worker, call_workers, scratch, tlc

KIND = {"T01": "plain", "T02": "cron", "T03": "combi"}
N = {"T01": 250, "T02": 60, "T03": 60}
QUICK = {"T01": 64, "T02": 48, "T03": 40}
CHANGES = 9


def clean(t):
    t = {k: v for k, v in t.items() if k != "py"}
    if "ts" in t:
        t["ts"] = [clean(x) for x in t["ts"]]
    return t


def model(kind, which, length):
    """scripts for the real triggers: every chain of the bounded model"""
    res = call_worker({"module": "trig_jobs", "fn": "model_job", "kind": kind, "which": which, "len": length}, 120)
    if "error" in res:
        raise ToolError(f"model input: {res['error']} {res['err']}")
    full = res["input"]
    directory = scratch("trigmc")
    try:
        path = os.path.join(directory, "input.json")
        with open(path, "w") as f:
            json.dump({**full, "trigs": [{**x, "t": clean(x["t"])} for x in full["trigs"]]}, f)
        rc, lines, stats, raw = tlc("TrigMC.tla", "TrigMC.cfg", {"INPUT": path}, timeout=900, heap="3g")
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    if rc != 0:
        raise ToolError(f"TrigMC {kind} {which}: the specification does not have its properties\n{raw[-3000:]}")
    scripts = []
    for line in lines:
        if line.startswith("SCRIPT "):
            s = json.loads(line[7:])
            trig = full["trigs"][s["i"] - 1]
            scripts.append({"t": trig["t"], "sched": trig["sched"],
                            "plan": [[p, now, k == 2] for k, (p, now) in enumerate(s["p"])]})  # fmt: skip
    return scripts, stats


def confirm(prop, bad):
    if bad["script"] is None:
        res = call_worker({"module": "trig_jobs", "fn": "fresh_triggers"}, 120)
    else:
        res = call_worker({"module": "trig_jobs", "fn": "replay_chains", "scripts": [bad["script"]],
                           "patience": 20}, 300)  # fmt: skip
    return any(b["prop"] == prop for b in res.get("bads", []))


def collect(check, results):
    fresh, left = {}, []
    for res in results:
        if "error" in res:
            check.errors.append(f"{res['job']['fn']}: {res['error']}: {res['err']}")
            continue
        check.add_stats(res["stats"])
        check.count("traces_validated_against_impl", res["segs"])
        check.count("answers_checked", res["entries"])
        if res["sample"]:
            check.sample(res["sample"])
        for bad in res["bads"]:
            if bad["prop"] == check.prop:
                fresh.setdefault(bad["cl"], []).append({**bad, "job": res["job"]})
    for cl, bads in fresh.items():
        for bad in bads[:4]:
            if confirm(check.prop, bad):
                fn = "replay_chains" if bad["script"] else "fresh_triggers"
                check.violation(cl, bad["d"], {"module": "trig_jobs", "fn": fn, "scripts": [bad["script"]],
                                               "entry": bad.get("entry")})  # fmt: skip
                break
        else:
            left.append((cl, bads[0]))
    # what one trigger answers may depend on what others were asked before in the same process
    for cl, bad in left[:3]:
        if again(bad["job"], bad):
            check.violation(cl, bad["d"], {**bad["job"], "entry": bad.get("entry")})
        else:
            check.count("unconfirmed")


def run(check):
    kind = KIND[check.prop]
    budget = 70 if check.quick else 780
    deadline = time.monotonic() + budget
    rnd = random.Random(check.seed)
    jobs = []
    if check.prop == "T01":
        jobs.append({"module": "trig_jobs", "fn": "fresh_triggers"})
    which = [rnd.randrange(CHANGES), (check.seed + 1) % CHANGES] if check.quick else range(CHANGES)
    limit = 1200 if check.quick else 8000
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        done = list(pool.map(lambda w: model(kind, w, 3 if check.quick else 4), which))
    for scripts, stats in done:
        check.add_stats(stats)
        check.count("model_states", stats["states"])
        check.count("model_behaviours", len(scripts))
        if len(scripts) > limit:
            scripts = rnd.sample(scripts, limit)
        check.count("model_behaviours_replayed", len(scripts))
        size = max(40, min(300, len(scripts) // CORES + 1))
        for k in range(0, len(scripts), size):
            jobs.append({"module": "trig_jobs", "fn": "replay_chains", "scripts": scripts[k : k + size]})
    n = N[check.prop]
    rounds = QUICK[check.prop] if check.quick else QUICK[check.prop] * 30
    jobs += [
        {"module": "trig_jobs", "fn": "random_chains", "kind": kind, "seed0": check.seed * 10_000_000 + k * n, "n": n}
        for k in range(rounds)
    ]
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    collect(check, results)
    check.assumptions += [
        "zones are the tables of the installed zoneinfo (and pytz for zones made by it), read once per check",
        "triggers are asked directly, as the scheduler does; points in time from 2014 to 2070",
    ]
