"""C01: the command line (CliMC, CliTrace)."""

from __future__ import annotations

import random
import time

import fam_file
from common import CORES, call_workers


def run(check):
    deadline = time.monotonic() + (75 if check.quick else 780)
    rnd = random.Random(check.seed)
    scripts, stats = fam_file.model("CliMC", LEN=4 if check.quick else 5)
    check.add_stats(stats)
    check.count("model_states", stats["states"])
    check.count("model_behaviours", len(scripts))
    limit = 1200 if check.quick else 20000
    if len(scripts) > limit:
        scripts = rnd.sample(scripts, limit)
    check.count("model_behaviours_replayed", len(scripts))
    parts = CORES * (1 if check.quick else 16)
    size = len(scripts) // parts + 1
    jobs = [{"module": "cli_jobs", "fn": "bad_job", "part": k, "parts": CORES} for k in range(CORES)]
    jobs += [{"module": "cli_jobs", "fn": "start_job", "part": k, "parts": 3} for k in range(3)]
    jobs += [{"module": "cli_jobs", "fn": "model_job", "scripts": scripts[k : k + size]} for k in range(0, len(scripts), size)]
    base = check.seed * 10_000_000
    n = 100
    jobs += [{"module": "cli_jobs", "fn": "random_job", "seed0": base + k * n, "n": n} for k in range(3 * CORES if check.quick else 400)]
    if not check.quick:
        rnd.shuffle(jobs)
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    fam_file.collect(check, results)
    check.assumptions += [
        "commands are given to asyncz.cli.app.main in this process, with a clock of the driver; what is stored is read by stores of its own",
        "stores are files of SQLAlchemy (SQLite) and of the file store; a command is not interrupted, and no two are given at once",
        "text which is not JSON is only looked at for what was done; start is given jobs which are not due (every kind of executor, several zones), and ends at once (no --standalone, no --watch)",
    ]
