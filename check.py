#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""

import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import common  # noqa: E402

FAMILIES = {
    "S": "fam_sched",
    "T": "fam_trig",
    "H01": "fam_rec",
    "H02": "fam_rec",
    "H06": "fam_rec",
    "H03": "fam_gate",
    "C": "fam_cli",
    "H04": "fam_dash",
    "H05": "fam_dash",
    "D01": "fam_store",
    "D02": "fam_store",
    "D03": "fam_file",
    "D04": "fam_lock",
}


def replay(path):
    with open(path) as f:
        job = json.load(f)
    res = common.call_worker(job["replay"], 300)
    print(json.dumps({k: v for k, v in res.items() if k in ("bads", "error", "err")}, indent=1)[:6000])
    return 1 if res.get("bads") or res.get("error") else 0


def importable():
    """does the code under test load at all?"""
    rc, out, err = common.run_group(
        [common.PY, "-c", "import asyncz.schedulers, asyncz.stores.file, asyncz.contrib.dashboard"], 120,
        env={**os.environ, "PYTHONPATH": common.REPO, "PYTHONDONTWRITEBYTECODE": "1"}, cwd="/",
    )  # fmt: skip
    return rc == 0, err


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = common.Check(prop, tier, seed)
    family = FAMILIES.get(prop) or FAMILIES[prop[0]]
    try:
        importlib.import_module(family).run(check)
    except common.ToolError as e:
        check.errors.append(str(e))
    except Exception:
        check.errors.append(traceback.format_exc())
    if check.errors and not check.violations:
        ok, err = importable()
        if not ok:
            check.violation("import", err[-800:], {"err": err[-3000:]})
    return check.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
