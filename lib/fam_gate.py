"""H03: the login of the dashboard (GateMC, GateTrace)."""

from __future__ import annotations

import random
import time

import fam_file
from common import CORES, call_workers


def run(check):
    deadline = time.monotonic() + (70 if check.quick else 780)
    rnd = random.Random(check.seed)
    jobs = []
    for bounds, paths in [({"DEPTH": 3, "LEN": 1}, True), ({"DEPTH": 1, "LEN": 3 if check.quick else 4}, False)]:
        scripts, stats = fam_file.model("GateMC", **bounds)
        check.add_stats(stats)
        check.count("model_states", stats["states"])
        check.count("model_behaviours", len(scripts))
        limit = (4000 if paths else 600) * (1 if check.quick else 12)
        if len(scripts) > limit:
            scripts = rnd.sample(scripts, limit)
        check.count("model_behaviours_replayed", len(scripts))
        parts = CORES * (1 if check.quick else 6)
        size = len(scripts) // parts + 1
        jobs += [{"module": "gate_jobs", "fn": "model_job", "scripts": scripts[k : k + size], "paths": paths} for k in range(0, len(scripts), size)]
    jobs += [{"module": "gate_jobs", "fn": "sweep_job", "part": k, "parts": CORES} for k in range(CORES)]
    base = check.seed * 10_000_000
    n = 200
    jobs += [{"module": "gate_jobs", "fn": "random_job", "seed0": base + k * n, "n": n} for k in range(CORES if check.quick else 240)]
    if not check.quick:
        rnd.shuffle(jobs)
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    fam_file.collect(check, results)
    check.assumptions += [
        "the requests are ASGI messages to the application in this process; reaching a controller is seen by a profile hook on its methods",
        "cookies are the ones the dashboard gave, altered or made without its secret; a valid cookie kept from before a logout is not replayed",
        "the prefix of the dashboard is not one of the open paths; preflight requests are answered outside the gate and reach nothing",
    ]
