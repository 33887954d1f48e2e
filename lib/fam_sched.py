"""S01..S13: whole schedulers against Core / SchedTrace."""

from __future__ import annotations

import json
import random
import time

from common import CORES, ToolError, call_worker, call_workers, tlc
from scripts import BASIC, LIFE, basic_pair, model_script, together

# profiles which exercise a property most (number of chunks in the quick tier)
PLAN = {
    "S01": {"rounds": 12, "mixed": 5, "limits": 4, "faults": 3, "sleep": 2},
    "S02": {"rounds": 7, "mixed": 5, "life": 6, "edits": 4, "sleep": 4},
    "S03": {"limits": 16, "outcomes": 5, "mixed": 3, "manual": 2},
    "S04": {"sleep": 12, "mixed": 4, "edits": 3, "faults": 4, "manual": 2, "life": 2},
    "S05": {"life": 16, "adding": 4, "mixed": 3, "listen": 2},
    "S06": {"life": 18, "mixed": 4, "faults": 2},
    "S07": {"outcomes": 16, "limits": 4, "mixed": 3, "edits": 2},
    "S08": {"faults": 16, "listen": 3, "mixed": 3, "life": 3},
    "S09": {"listen": 14, "mixed": 4, "life": 4, "faults": 2},
    "S10": {"edits": 18, "mixed": 4, "sleep": 3, "faults": 2},
    "S11": {"manual": 18, "mixed": 4, "limits": 4},
    "S12": {"inspect": 18, "mixed": 4, "edits": 2},
    "S13": {"adding": 18, "mixed": 4, "life": 3},
    "S14": {"par": 40},
}
# repertoires of SchedMC which exercise a property: {mode: length of the histories}
MODEL = {
    "S01": {"rounds": 7}, "S02": {"life": 5, "rounds": 6}, "S03": {"limits": 6}, "S04": {"edits": 5, "manual": 5},
    "S05": {"life": 6}, "S06": {"life": 6}, "S07": {"limits": 6}, "S08": {"life": 5}, "S09": {"life": 5, "edits": 4},
    "S10": {"edits": 6}, "S11": {"manual": 6}, "S12": {"edits": 5}, "S13": {"edits": 5, "life": 5},
    "S14": {"edits": 5, "manual": 5, "limits": 6},
}  # fmt: skip
OPS = {
    "round": {"S01"}, "start": {"S05", "S13"}, "shutdown": {"S05", "S06"}, "pause": {"S05"},
    "resume": {"S05"}, "setup": {"S05"}, "add": {"S13"}, "update": {"S10"}, "resched": {"S10"},
    "pauset": {"S10"}, "resumet": {"S10"}, "del": {"S10"}, "delall": {"S10"}, "run": {"S11"},
    "query": {"S12"}, "preview": {"S12"}, "lookup": {"S12"}, "adv": {"S01", "S04"},
    "begin": {"S07"}, "release": {"S07"}, "quiet": {"S07"},
}  # fmt: skip
N = 120
CUTS = 16
PAROPS = {"begin", "round", "run", "update", "resched", "pauset", "resumet", "del", "add", "start", "shutdown", "pause", "resume"}


def props_of(bad):
    if bad["props"] != ["*"]:
        return set(bad["props"])
    return OPS.get(bad["op"], {"S09"}) | {"S08"} | ({"S04", "S14"} if bad["cl"] == "hang" else {"S12"})


def jobs(plan, seed, rounds, n=N):
    """interleaves the profiles"""
    todo = []
    for r in range(rounds):
        for name, count in plan.items():
            for k in range(count):
                todo.append(((k + 0.5) / count + r, name, k + r * count))
    todo.sort()
    return [
        {"module": "sched_jobs", "fn": "random_segments", "profile": name, "n": n,
         "seed0": seed * 1_000_000 + k * n}
        for _, name, k in todo
    ]  # fmt: skip


def confirm(prop, bad, job):
    """the same thing happens again when the segment (or else the whole job) is repeated"""
    for _ in range(2):
        res = call_worker({"module": "sched_jobs", "fn": "replay_scripts", "scripts": [bad["script"]]}, 120)
        if any(prop in props_of(b) for b in res.get("bads", [])):
            return True
    res = call_worker(job, 300)
    return any(prop in props_of(b) for b in res.get("bads", []))


def collect(check, results):
    fresh = {}
    for res in results:
        if "error" in res:
            check.errors.append(f"{res['job'].get('profile', res['job']['fn'])}: {res['error']}: {res['err']}")
            continue
        check.add_stats(res["stats"])
        check.count("traces_validated_against_impl", res["segs"])
        check.count("observed_calls", res["entries"])
        for op, k in res["ops"].items():
            check.coverage.setdefault("calls_by_operation", {})
            check.coverage["calls_by_operation"][op] = check.coverage["calls_by_operation"].get(op, 0) + k
        if res["sample"]:
            check.sample({"profile": res["job"].get("profile", "model"), "script": res["sample"]})
        for bad in res["bads"]:
            if check.prop in props_of(bad):
                fresh.setdefault(bad["cl"], []).append((bad, res["job"]))
    tried = 0
    for cl, items in fresh.items():
        for bad, job in items[:3]:
            tried += 1
            if tried <= 12 and confirm(check.prop, bad, job):
                check.violation(
                    f"{bad['op']}:{cl}", bad["d"],
                    {"module": "sched_jobs", "fn": "replay_scripts", "scripts": [bad["script"]],
                     "entry": bad["n"], "props": bad["props"]},
                )  # fmt: skip
                break
        else:
            check.count("unconfirmed")
            check.coverage.setdefault("unconfirmed_samples", []).append({"clause": cl, "d": items[0][0]["d"][:500]})


def model_jobs(check, limit):
    """TLC explores the bounded model; its transitions become scripts for the real scheduler"""
    jobs, rnd = [], random.Random(check.seed)
    for mode, length in MODEL[check.prop].items():
        if not check.quick:
            length += 1
        rc, lines, stats, raw = tlc(
            "SchedMC.tla", "SchedMC.cfg", {"MODE": mode, "LEN": str(length)}, timeout=600, heap="4g"
        )
        if rc != 0:
            raise ToolError(f"SchedMC {mode}: the specification does not have its properties\n{raw[-3000:]}")
        check.count("model_states", stats["states"])
        check.count("model_transitions", stats["transitions"])
        check.add_stats(stats)
        calls = [line[7:] for line in lines if line.startswith("SCRIPT ")]
        calls = [json.loads(c) for c in dict.fromkeys(calls)]
        inner = {json.dumps(c[:-1]) for c in calls}
        calls = [c for c in calls if json.dumps(c) not in inner]
        check.count("model_behaviours", len(calls))
        if check.prop == "S14":
            # the last calls of every behaviour at the same time; every pair of operations has its share
            groups = {}
            for c in calls:
                if len(c) > 1 and c[-1][0] in PAROPS and c[-2][0] in PAROPS:
                    same = len({x[1]["id"] for x in c[-2:] if "id" in x[1]}) < 2
                    groups.setdefault((*sorted([c[-1][0], c[-2][0]]), same), []).append(c)
            check.count("pairs_of_operations", len(groups))
            for g in groups.values():
                rnd.shuffle(g)
            for turn in range(limit // 200):
                some = [g[turn] for g in groups.values() if turn < len(g)]
                scripts = [together(model_script(c, turn + k), PAROPS, rnd) for k, c in enumerate(some)]
                check.count("model_behaviours_replayed", len(scripts))
                for k in range(0, len(scripts), 6):
                    jobs.append({"module": "sched_jobs", "fn": "explore_pairs", "scripts": scripts[k : k + 6],
                                 "cuts": CUTS, "seed": check.seed + 100 * turn + k})  # fmt: skip
            continue
        if len(calls) > limit:
            calls = rnd.sample(calls, limit)
        check.count("model_behaviours_replayed", len(calls))
        scripts = [model_script(c, k) for k, c in enumerate(calls)]
        size = max(100, min(400, len(scripts) // CORES + 1))
        for k in range(0, len(scripts), size):
            jobs.append({"module": "sched_jobs", "fn": "replay_scripts", "scripts": scripts[k : k + size]})
    return jobs


WITHLIFE = ("add", "round", "run", "begin", "del", "resumet", "peek")


def pairs(check):
    if check.prop == "S14":
        yield from ((a, b) for a in BASIC for b in BASIC)
    if check.prop == "S05" or not check.quick:
        yield from ((a, b) for a in LIFE for b in LIFE)
        for b in WITHLIFE if check.quick else BASIC:
            yield from ((a, b) for a in LIFE)
            yield from ((b, a) for a in LIFE)


def pair_jobs(check):
    """every two operations (on one task): the second one takes place in whole within the first one"""
    out = []
    for k, (a, b) in enumerate(pairs(check)):
        life = bool({a, b} & set(LIFE))
        for stopped in (False, True):
            if stopped and {a, b} & {"begin", "run", "round"}:
                continue
            full = not check.quick or a == "begin" or {a, b} <= set(LIFE)
            few = life and check.quick and (stopped or not {a, b} <= set(LIFE))
            for variant in range(1 if few or (check.quick and not life) else 3):
                out.append({"module": "sched_jobs", "fn": "explore_pairs", "scripts": [basic_pair(a, b, k + variant, stopped)],
                            "cuts": 0 if full else 8 if life else 10, "seed": check.seed + k})  # fmt: skip
    check.count("basic_pairs", len(out))
    if not check.quick:
        return out
    merged = []
    for full in (True, False):
        some = [j for j in out if (j["cuts"] == 0) == full]
        for k in range(0, len(some), 2 if full else 8):
            part = some[k : k + (2 if full else 8)]
            merged.append({**part[0], "scripts": [j["scripts"][0] for j in part]})
    return merged


def run(check):
    budget = (75 if check.prop == "S05" else 50) if check.quick else 660
    deadline = time.monotonic() + budget
    todo = model_jobs(check, 1600 if check.quick else 40000)
    if check.prop == "S14":
        todo += jobs(PLAN[check.prop], check.seed, 1 if check.quick else 40, 40)
    else:
        todo += jobs(PLAN[check.prop], check.seed, 1 if check.quick else 40)
    todo = [j for k in range(5) for j in todo[k::5]]  # a fair share for everything when time is short
    if check.prop in ("S05", "S14"):
        todo = pair_jobs(check) + todo
    results, skipped = call_workers(todo, deadline)
    check.coverage["jobs_skipped_for_time"] = skipped
    collect(check, results)
    check.assumptions += [
        "time is virtual (datetime.now and the event loop's clock are replaced); real clocks are not jumped",
        "the harness observes through the public API, events and subclasses of the extension points",
    ]
