"""D04: lock files used by several processes (LockMC, LockTrace), schedulers on shared stores (ShareMC, ShareTrace)."""

from __future__ import annotations

import random
import time

import fam_file
from common import CORES, call_workers


def run(check):
    deadline = time.monotonic() + (100 if check.quick else 780)
    rnd = random.Random(check.seed)
    jobs = []
    for name, module, bounds, share in [
        ("LockMC", "lock_jobs", [{"PROCS": 2, "OPS": 2, "KILLS": 1}, {"PROCS": 3, "OPS": 1, "KILLS": 1}], 2400),
        ("ShareMC", "share_jobs", [{"PROCS": 2, "ROUNDS": 2, "KILLS": 1, "RUNS": 2}, {"PROCS": 3, "ROUNDS": 1, "KILLS": 1, "RUNS": 2}], 1000),
    ]:
        if not check.quick:
            bounds.append({"PROCS": 2, "OPS": 2, "KILLS": 2} if name == "LockMC" else {"PROCS": 2, "ROUNDS": 2, "KILLS": 2, "RUNS": 3})
            share *= 8
        for b in bounds:
            some, stats = fam_file.model(name, **b)
            check.add_stats(stats)
            check.count("model_states", stats["states"])
            check.count("model_behaviours", len(some))
            for s in some:
                s["runs"] = b.get("RUNS", 0)
            limit = share // len(bounds)
            some = some if len(some) <= limit else rnd.sample(some, limit)
            for k, s in enumerate(some):
                s["seed"] = k
            check.count("model_behaviours_replayed", len(some))
            size = len(some) // (CORES * (1 if check.quick else 4)) + 1
            jobs += [{"module": module, "fn": "model_job", "scripts": some[k : k + size]} for k in range(0, len(some), size)]
    base = check.seed * 10_000_000
    n = 150
    jobs += [{"module": "lock_jobs", "fn": "random_job", "seed0": base + k * n, "n": n} for k in range(CORES if check.quick else 100)]
    n = 60
    jobs += [{"module": "share_jobs", "fn": "random_job", "seed0": base + k * n, "n": n} for k in range(CORES if check.quick else 200)]
    if not check.quick:
        rnd.shuffle(jobs)
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    fam_file.collect(check, results)
    check.assumptions += [
        "flock of the kernel as on a local Linux file system",
        "processes are stopped at every file system call and stat of the lock, at every access of a scheduler to a store, and "
        "(random histories) before every line; a death is SIGKILL at such a point",
        "a run handed over by a process that died before it could store the next run time may be handed over again",
    ]
