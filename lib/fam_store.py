"""D01, D02: real stores against Store / StoreTrace; the bounded model StoreMC."""

from __future__ import annotations

import json
import random
import time

from common import CORES, ToolError, again, call_worker, call_workers, tlc

VARIANTS = {
    "D01": [["mem", None], ["file", None], ["sql", None], ["redis", None], ["mongo", None], ["filex", "k1"], ["sql", "k1"]],
    "D02": [["file", "k1"], ["sql", "k1"], ["redis", "k1"], ["mongo", "k1"], ["file", None], ["redis", None]],
}  # fmt: skip


def model(length):
    rc, lines, stats, raw = tlc("StoreMC.tla", "StoreMC.cfg", {"LEN": str(length)}, timeout=600)
    if rc != 0:
        raise ToolError("StoreMC: the specification does not have its properties\n" + raw[-3000:])
    return [json.loads(x[7:]) for x in lines if x.startswith("SCRIPT ")], stats


def confirm(prop, bad):
    res = call_worker({"module": "store_jobs", "fn": "replay", "scripts": [bad["script"]]}, 120)
    return any(prop in b["props"] for b in res.get("bads", []))


def collect(check, results):
    fresh = {}
    for res in results:
        if "error" in res:
            check.errors.append(f"{res['job']['fn']}: {res['error']}: {res['err']}")
            continue
        check.add_stats(res["stats"])
        check.count("traces_validated_against_impl", res["segs"])
        check.count("store_operations", res["entries"])
        for kind, n in res["kinds"].items():
            check.count("histories_" + kind, n)
        if res["sample"]:
            check.sample(res["sample"])
        for bad in res["bads"]:
            if check.prop in bad["props"]:
                fresh.setdefault(bad["cl"], []).append({**bad, "job": res["job"]})
    for cl, bads in fresh.items():
        for bad in sorted(bads, key=lambda b: len(b["script"]["steps"]))[:4]:
            if confirm(check.prop, bad):
                check.violation(cl, bad["d"], {"module": "store_jobs", "fn": "replay", "scripts": [bad["script"]],
                                               "entry": bad.get("entry")})  # fmt: skip
                break
        else:
            if again(bads[0]["job"], bads[0]):
                check.violation(cl, bads[0]["d"], {**bads[0]["job"], "entry": bads[0].get("entry")})
                continue
            check.count("unconfirmed")


def run(check):
    deadline = time.monotonic() + (100 if check.quick else 800)
    rnd = random.Random(check.seed)
    hists, stats = model(4 if check.quick else 5)
    check.add_stats(stats)
    check.count("model_states", stats["states"])
    check.count("model_behaviours", len(hists))
    limit = 1500 if check.quick else 12000
    if len(hists) > limit:
        hists = rnd.sample(hists, limit)
    check.count("model_behaviours_replayed", len(hists))
    size = len(hists) // (CORES * (1 if check.quick else 6)) + 1
    jobs = [
        {"module": "store_jobs", "fn": "model_replay", "hists": hists[k : k + size], "variants": VARIANTS[check.prop]}
        for k in range(0, len(hists), size)
    ]
    n = 150
    base = check.seed * 10_000_000 + (5_000_000 if check.prop == "D02" else 0)
    jobs += [
        {"module": "store_jobs", "fn": "random_job", "seed0": base + k * n, "n": n} for k in range(16 if check.quick else 400)
    ]
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    collect(check, results)
    check.assumptions += [
        "stores are driven directly, one operation at a time; D03 covers concurrent use",
        "the MongoDB store talks to a stand-in for single documents kept as BSON, Redis and SQLite are the real ones",
        "callables are importable in every process; run times from 1955 to 2099 with microseconds",
        "pickle protocol 4 or higher (lower ones of Python forget which of two equal wall clock times is meant)",
    ]
