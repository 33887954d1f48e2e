"""H01: the run history (HistMC, HistTrace). H02: timeline, audit trail and log buffer (RingMC, RingTrace). H06: the log of a run (RunLogMC, RunLogTrace)."""

from __future__ import annotations

import random
import time

import fam_file
from common import CORES, call_workers

WHAT = {
    "H01": ("HistMC", "hist_jobs", [{"LEN": 4, "PAR": 0}, {"LEN": 2, "PAR": 1}], [{"LEN": 5, "PAR": 0}, {"LEN": 3, "PAR": 1}]),
    "H02": ("RingMC", "ring_jobs", [{"LEN": 4}], [{"LEN": 6}]),
    "H06": ("RunLogMC", "runlog_jobs", [{"LEN": 4, "MAX": 100}, {"LEN": 3, "MAX": 2}], [{"LEN": 5, "MAX": 100}, {"LEN": 4, "MAX": 2}, {"LEN": 4, "MAX": 3}]),
}


def run(check):
    deadline = time.monotonic() + (60 if check.quick else 780)
    rnd = random.Random(check.seed)
    name, module, quick, thorough = WHAT[check.prop]
    jobs = []
    for bounds in quick if check.quick else thorough:
        some, stats = fam_file.model(name, **{"MAX": 2, **bounds})
        check.add_stats(stats)
        check.count("model_states", stats["states"])
        scripts = list({str(s): s for s in some}.values())
        check.count("model_behaviours", len(scripts))
        race = bounds.get("PAR") == 1
        limit = (64 if race else 2400) * (1 if check.quick else 12)
        if len(scripts) > limit:
            scripts = rnd.sample(scripts, limit)
        check.count("model_behaviours_replayed", len(scripts))
        scripts = [s["h"] for s in scripts] if module != "ring_jobs" else scripts
        size = len(scripts) // (CORES * (1 if check.quick else 6)) + 1
        jobs += [{"module": module, "fn": "model_job", "scripts": scripts[k : k + size], "lmax": bounds.get("MAX")} for k in range(0, len(scripts), size)]
    base = check.seed * 10_000_000
    for fn, n, parts in [("random_job", 250, CORES if check.quick else 150), ("race_job", 12 if module == "hist_jobs" else 24, CORES if check.quick else 150)]:
        if fn == "race_job" and module == "runlog_jobs":
            continue
        jobs += [{"module": module, "fn": fn, "seed0": base + k * n, "n": n} for k in range(parts)]
    if not check.quick:
        rnd.shuffle(jobs)
    results, skipped = call_workers(jobs, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    fam_file.collect(check, results)
    if module == "runlog_jobs":
        check.assumptions.append("announcements one after the other; the history is larger than the number of runs")
        return
    check.assumptions += [
        "two operations at once: the second one runs (as far as locks let it) before each single line of the first",
        "searched texts are chosen so that generated record numbers cannot match by accident",
    ]
