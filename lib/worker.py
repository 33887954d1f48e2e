"""Runs one job against the code in /repo: worker.py JOB.json (in the interpreter of the venv)."""

import importlib
import json
import os
import sys

if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        job = json.load(f)
    module = importlib.import_module(job["module"])
    result = getattr(module, job["fn"])(job)
    path = os.path.join(job["dir"], "result.json")
    with open(path + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(path + ".tmp", path)
    sys.stdout.flush()
    os._exit(0)
