#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that every module of the specification parses."""

import glob
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common  # noqa: E402

os.makedirs(common.OUT, exist_ok=True)
os.makedirs(os.path.join(common.ROOT, "evidence"), exist_ok=True)
bad = 0
for path in sorted(glob.glob(os.path.join(common.SPEC, "*.tla"))):
    rc, out, err = common.run_group(
        ["java", "-cp", common.JAR, "tla2sany.SANY", os.path.basename(path)], 120, cwd=common.SPEC
    )
    ok = rc == 0 and "*** Errors" not in out and "Fatal" not in out
    print(os.path.basename(path), "ok" if ok else "FAILED\n" + out + err)
    bad += not ok
sys.exit(1 if bad else 0)
