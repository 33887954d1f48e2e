"""D03: the file store used by several processes at once, against Lin / FileTrace; the algorithm FileMC."""

from __future__ import annotations

import json
import random
import time

from common import CORES, ToolError, again, call_worker, call_workers, tlc


def model(name, **bounds):
    rc, lines, stats, raw = tlc(f"{name}.tla", f"{name}.cfg", {k: str(v) for k, v in bounds.items()}, workers=4, timeout=600, heap="6g")
    if rc != 0:
        raise ToolError(f"{name}: the specification does not have its properties\n" + raw[-3000:])
    return [json.loads(x[7:]) for x in lines if x.startswith("SCRIPT ")], stats


def confirm(prop, bad, module):
    for _ in range(3):
        res = call_worker({"module": module, "fn": "replay", "scripts": [bad["script"]]}, 120)
        if any(prop in b["props"] for b in res.get("bads", [])):
            return True
    return False


def collect(check, results):
    fresh = {}
    for res in results:
        if "error" in res:
            check.errors.append(f"{res['job']['fn']}: {res['error']}: {res['err']}")
            continue
        kind = res["job"]["fn"].split("_")[0]
        check.add_stats(res["stats"])
        check.count("traces_validated_against_impl", res["segs"])
        check.count("trace_events", res["entries"])
        check.count("histories_" + kind, res["segs"])
        if kind == "model":
            check.count("behaviours_followed_exactly", res["exact"])
        if kind == "crash":
            check.count("crash_points_reached", res["exact"])
        if res["sample"]:
            check.sample(res["sample"])
        for bad in res["bads"]:
            if check.prop in bad["props"]:
                fresh.setdefault((res["job"]["module"], bad["cl"]), []).append({**bad, "job": res["job"]})
    for (module, cl), bads in fresh.items():
        for bad in sorted(bads, key=lambda b: len(b["history"]))[:4]:
            if confirm(check.prop, bad, module):
                check.violation(cl, bad["d"], {"module": module, "fn": "replay", "scripts": [bad["script"]],
                                               "history": bad["history"]})  # fmt: skip
                break
        else:
            # (the processes of these are stepped one by one, they start afresh each time)
            if module not in ("file_jobs", "lock_jobs", "share_jobs") and again(bads[0]["job"], bads[0]):
                check.violation(cl, bads[0]["d"], bads[0]["job"])
                continue
            check.count("unconfirmed")


def run(check):
    deadline = time.monotonic() + (110 if check.quick else 780)
    rnd = random.Random(check.seed)
    scripts = []
    for procs, kills in [(2, 1)] if check.quick else [(2, 2), (3, 0)]:
        some, stats = model("FileMC", PROCS=procs, KILLS=kills)
        check.add_stats(stats)
        check.count("model_states", stats["states"])
        check.count("model_behaviours", len(some))
        scripts.append(some)
    limit = (2400 if check.quick else 24000) // len(scripts)
    scripts = [s for some in scripts for s in (some if len(some) <= limit else rnd.sample(some, limit))]
    rnd.shuffle(scripts)
    check.count("model_behaviours_replayed", len(scripts))
    jobs = [{"module": "file_jobs", "fn": "crash_job", "part": k, "parts": CORES} for k in range(CORES)]
    size = len(scripts) // (CORES * (1 if check.quick else 8)) + 1
    jobs += [{"module": "file_jobs", "fn": "model_job", "scripts": scripts[k : k + size]} for k in range(0, len(scripts), size)]
    n = 120
    jobs += [
        {"module": "file_jobs", "fn": "random_job", "seed0": check.seed * 10_000_000 + k * n, "n": n}
        for k in range(CORES if check.quick else 200)
    ]
    if not check.quick:
        head = jobs[:CORES]
        rest = jobs[CORES:]
        rnd.shuffle(rest)
        jobs = head + rest
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    collect(check, results)
    check.assumptions += [
        "processes are stopped before every file system call they make in the directory (random histories: before every line)",
        "a death is SIGKILL at such a point; the machine itself does not lose what was written",
        "listing a small directory is atomic; a listing promises something for each record, not for all of them at once",
    ]
