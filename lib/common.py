"""Shared by all checks: scratch directories, TLC, worker processes, results."""

from __future__ import annotations

import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


def scratch(prefix="verif"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


class ToolError(Exception):
    """The machinery itself failed (neither pass nor violation)."""


def run_group(cmd, timeout, **kw):
    """Run a command in its own process group (workers and what they start share one); it is ended on timeout."""
    inner = "VERIF_WORKER" in os.environ
    proc = subprocess.Popen(
        cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=not inner, **kw
    )
    try:
        out, err = proc.communicate(timeout=timeout)
        return proc.returncode, out, err
    except subprocess.TimeoutExpired:
        proc.kill() if inner else os.killpg(proc.pid, signal.SIGKILL)
        out, err = proc.communicate()
        return None, out, err


def tlc(module, cfg, env=None, workers=1, args=(), timeout=600, heap="2g"):
    """Run TLC; returns (lines printed by the spec, statistics, raw output)."""
    meta = scratch("tlc")
    try:
        cmd = [
            "java", "-Xss256m", f"-Xmx{heap}",
            "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
            "-config", cfg, *args, module,
        ]  # fmt: skip
        rc, out, err = run_group(cmd, timeout, cwd=SPEC, env={**os.environ, **(env or {})})
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    lines = []
    for line in out.splitlines():
        if line.startswith('"'):
            try:
                lines.append(json.loads(line))
            except ValueError:
                lines.append(line.strip('"'))
    stats = {"states": 0, "transitions": 0}
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if m:
        stats["transitions"] = int(m[-1][0].replace(",", ""))
        stats["states"] = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"([\d,]+) states checked", out) or re.findall(r"([\d,]+) states generated", out)
        if m:
            stats["transitions"] = stats["states"] = int(m[-1].replace(",", ""))
    return rc, lines, stats, out + err


def validate(module, trace, cfg=None, env=None, timeout=600):
    """Check a recorded trace against a monitor module; returns (bads, stats)."""
    if not os.path.getsize(trace):
        return [], {"states": 0, "transitions": 0}
    rc, lines, stats, raw = tlc(
        module + ".tla", cfg or module + ".cfg", {"TRACE": trace, **(env or {})}, timeout=timeout
    )
    bads, done = [], False
    for line in lines:
        if line.startswith("BAD "):
            bads.append(json.loads(line[4:]))
        elif line.startswith("DONE"):
            done = True
    if not done:
        raise ToolError(f"{module}: the monitor did not come to its end\n" + raw[-3000:])
    return bads, stats


def write_trace(path, entries):
    with open(path, "w") as f:
        for entry in entries:
            f.write(json.dumps(entry))
            f.write("\n")


def call_worker(job, timeout):
    """Run one job in a fresh interpreter of the venv."""
    directory = scratch("vjob")
    try:
        path = os.path.join(directory, "job.json")
        with open(path, "w") as f:
            json.dump({**job, "dir": directory}, f)
        env = {
            **os.environ, "PYTHONPATH": f"{REPO}:{ROOT}/lib", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": "0", "VERIF_WORKER": "1", "TMPDIR": directory, "PYTHONWARNINGS": "ignore",
        }  # fmt: skip
        rc, out, err = run_group([PY, os.path.join(ROOT, "lib", "worker.py"), path], timeout, env=env, cwd=directory)
        result = os.path.join(directory, "result.json")
        if rc is None:
            return {"job": job, "error": "timeout", "err": err[-2000:]}
        if not os.path.exists(result):
            return {"job": job, "error": f"exit {rc}", "err": (out + err)[-3000:]}
        with open(result) as f:
            return {"job": job, **json.load(f)}
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def again(job, bad, timeout=300):
    """the whole job once more: what happens may depend on what happened before in the same process"""
    res = call_worker(job, timeout)
    return any(b["cl"] == bad["cl"] and b["script"] == bad["script"] for b in res.get("bads", []))


def call_workers(jobs, deadline, timeout=240, cores=CORES):
    """Run jobs in parallel until the deadline; jobs which did not start by then are skipped."""
    results, skipped = [], 0

    def one(job):
        left = deadline - time.monotonic()
        if left < 5:
            return None
        patience = min(timeout, left + 60)
        res = call_worker(job, patience)
        if res.get("error") == "timeout" and patience < timeout:
            return None  # out of time, not out of order
        return res

    with concurrent.futures.ThreadPoolExecutor(cores) as pool:
        for res in pool.map(one, jobs):
            if res is None:
                skipped += 1
            else:
                results.append(res)
    if jobs and not results:
        raise ToolError("no job came to its end in time")
    return results, skipped


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.monotonic()
        self.level = "model_checking"
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.errors = []

    @property
    def quick(self):
        return self.tier == "quick"

    def add_stats(self, stats):
        self.coverage["states"] += stats.get("states", 0)
        self.coverage["transitions"] += stats.get("transitions", 0)

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, item, limit=4):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(item)

    def known(self, what):
        """is this failing input listed as a known finding?"""
        for f in known_findings():
            if f.get("property") == self.prop and f.get("key") == what:
                return f
        return None

    def violation(self, clause, detail, replay, key=None):
        """replay: a JSON value from which the failure can be reproduced"""
        f = self.known(key) if key else None
        if f:
            if f not in self.known_hits:
                self.known_hits.append(f)
            return
        self.violations.append({"clause": clause, "detail": detail, "replay": replay})

    def finish(self):
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        seen = {}
        for v in self.violations:
            seen.setdefault(v["clause"], []).append(v)
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.coverage, "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(self.violations),
        }  # fmt: skip
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for f in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        for k, (clause, vs) in enumerate(seen.items()):
            path = os.path.join(OUT, f"{self.prop}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "clause": clause, "count": len(vs), **vs[0]}, f, indent=1)
            print(f"  {clause} ({len(vs)}x): {str(vs[0]['detail'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        for e in self.errors[:5]:
            print("ERROR: " + e, file=sys.stderr)
        print(
            f"{self.prop} {self.tier}: {len(self.violations)} violation(s), "
            f"{self.coverage['traces_validated_against_impl']} traces, "
            f"{self.coverage['states']} states, {evidence['wall_s']} s"
        )
        sys.stdout.flush()
        if self.violations:
            return 1
        return 2 if self.errors else 0


_known = None


def known_findings():
    global _known
    if _known is None:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            _known = json.load(f)["findings"]
    return _known
