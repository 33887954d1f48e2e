"""H04, H05: a scheduler which is driven through the dashboard or the remote control, against Core / SchedTrace."""

from __future__ import annotations

import json
import time

from common import call_worker, call_workers
from fam_sched import jobs

PLAN = {"H04": {"dash": 24}, "H05": {"remote": 24}}
VIA = {"H04": "dash", "H05": "remote"}


def locally(script):
    """the same calls, made on the scheduler itself"""
    script = json.loads(json.dumps(script))
    for op, a in script:
        if op == "reset":
            a["via"] = "local"
    return script


def replayed(script):
    return call_worker({"module": "sched_jobs", "fn": "replay_scripts", "scripts": [script]}, 120)


def confirm(bad):
    """it happens again, and it does not happen without the dashboard (or the remote control)"""
    def seen(script):
        return any((b["op"], b["cl"]) == (bad["op"], bad["cl"]) for b in replayed(script).get("bads", []))

    return seen(bad["script"]) and not seen(locally(bad["script"]))


def collect(check, results):
    fresh = {}
    for res in results:
        if "error" in res:
            check.errors.append(f"{res['job'].get('profile', res['job']['fn'])}: {res['error']}: {res['err']}")
            continue
        check.add_stats(res["stats"])
        check.count("traces_validated_against_impl", res["segs"])
        check.count("observed_calls", res["entries"])
        for op, k in res["ops"].items():
            check.coverage.setdefault("calls_by_operation", {})
            check.coverage["calls_by_operation"][op] = check.coverage["calls_by_operation"].get(op, 0) + k
        if res["sample"]:
            check.sample({"profile": res["job"].get("profile", "model"), "script": res["sample"]})
        for bad in res["bads"]:
            fresh.setdefault((bad["op"], bad["cl"]), []).append(bad)
    # first what only the dashboard has
    order = sorted(fresh, key=lambda k: not any(check.prop in b["props"] for b in fresh[k]))
    tried = 0
    for key in order:
        for bad in fresh[key][:3]:
            tried += 1
            if tried <= 15 and confirm(bad):
                check.violation(
                    ":".join(key), bad["d"],
                    {"module": "sched_jobs", "fn": "replay_scripts", "scripts": [bad["script"]], "entry": bad["n"], "props": bad["props"]},
                )  # fmt: skip
                break
        else:
            check.count("unconfirmed")
            check.coverage.setdefault("unconfirmed_samples", []).append({"clause": key[1], "d": fresh[key][0]["d"][:500]})


def run(check):
    deadline = time.monotonic() + (40 if check.quick else 660)
    todo = jobs(PLAN[check.prop], check.seed, 1 if check.quick else 60)
    results, skipped = call_workers(todo, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    collect(check, results)
    check.assumptions += [
        "requests go to the application in this process (ASGI); no HTTP server, proxy or network in between",
        "time is virtual; what the scheduler itself does is decided by S01..S14",
    ]
