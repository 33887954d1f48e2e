#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SCHED = (
    "TLA+ specification (Core) of the scheduler; TLC validates traces recorded from real schedulers "
    "clause by clause (SchedTrace), driven by behaviours of the bounded model and seeded random scenarios"
)
TECH = {f"S{k:02}": SCHED for k in range(1, 14)}
TECH["S14"] = (
    "TLA+ specification (Core, SchedTrace) of concurrent calls: some sequential order must explain results, submissions and tasks; "
    "the real scheduler is interrupted line by line in pairs of calls taken from behaviours of the bounded model (SchedMC) and in "
    "seeded random schedules, and TLC judges the traces"
)
TRIG = (
    "TLA+ specification of calendar, zones and triggers (Cal, Trig); TLC checks it against exhaustive search (TrigMC) and "
    "judges answers recorded from the real triggers (TrigTrace), for chains of the model and seeded random ones"
)
TECH.update({f"T{k:02}": TRIG for k in range(1, 4)})
STORE = (
    "TLA+ specification of the task table (Store); TLC checks it bounded (StoreMC) and validates what real stores answered "
    "(StoreTrace), for every transition of the model and seeded random histories"
)
TECH.update({p: STORE for p in ("D01", "D02")})
TECH["D03"] = (
    "TLA+ specification of the file store's algorithm between file system calls (FileMC, TLC) and of linearizability with deaths "
    "(Lin); processes of the real store are stepped along the model's behaviours, at every crash point and along random "
    "schedules, and TLC judges the histories (FileTrace)"
)
TECH["D04"] = (
    "TLA+ specifications of the lock file between file system calls (LockMC) and of schedulers sharing a store (ShareMC), checked "
    "by TLC; real processes are stepped along their behaviours and random schedules with deaths, and TLC judges the histories "
    "(LockTrace, ShareTrace)"
)
TECH["H04"] = (
    "TLA+ specification (Core, SchedTrace) of dashboard actions as calls of the scheduler with an audit record each; TLC validates "
    "traces of real dashboards (ASGI) driven by seeded random scenarios with failing stores and executors"
)
TECH["H05"] = (
    "TLA+ specification (Core, SchedTrace) of the scheduler seen through the remote control; TLC validates traces recorded through a "
    "real remote client and its worker application, driven by seeded random scenarios"
)
TECH["H01"] = (
    "TLA+ specification (Hist) of the run history; TLC enumerates the orders of announcements and queries (HistMC), which are "
    "replayed on the real storage, also from two threads, and judges the recorded answers (HistTrace)"
)
TECH["H02"] = (
    "TLA+ specification (Ring) of the bounded record storages; TLC enumerates appends, queries and clears (RingMC), which are "
    "replayed on the real event, log and audit storages, and judges the recorded answers (RingTrace)"
)
TECH["H06"] = (
    "TLA+ specification (RunLog on Hist) of the lines announcements leave and of what is shown of a run; TLC enumerates announcements, "
    "lines and pauses (RunLogMC), which are replayed on the real history and log storage, and judges what they show (RunLogTrace)"
)
TECH["H03"] = (
    "TLA+ specification (Gate) of sessions and open paths; TLC enumerates requests and logins (GateMC), which are replayed on real "
    "ASGI applications with the dashboard mounted in different ways, and judges the recorded answers (GateTrace)"
)
TECH["C01"] = (
    "TLA+ specification (Cli on Core) of the commands; TLC enumerates sequences of commands (CliMC), which are given to the real "
    "command line, and judges exit codes, stored tasks, executions and printed JSON (CliTrace)"
)
NOTE = {p: "" for p in TECH}
TRUST = (
    "Trusted: TLC, the virtual clock and event loop of the harness, and the observation through public API, "
    "events and subclasses of the extension points. Bounds: see DESIGN.md."
)
LEVEL = {}
NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = [json.loads(line) for line in f if line.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in TECH:
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i} --tier quick",
                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "technique": TECH[i],
                "level": LEVEL.get(i, "model_checking"),
                "level_note": (NOTE.get(i, "") + " " + TRUST).strip(),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
    manifest = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: /repo carries no instrumentation, only fix: commits (see known_findings.json).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
