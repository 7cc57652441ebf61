"""Validate planted bugs: usage plant.py [--noreg] ID...   (development tool, no check uses it)

For every /verif/seeded/ID: the patch applies to a scratch copy of /repo, the package imports,
the stable tests pass, demo.sh exits 0 without and nonzero with the patch; then the quick check
of its property runs against the patched copy. Prints one line per bug."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
ENV.pop("DSPS_DRN", None)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout + p.stderr


def demo(d, repo):
    """Run the demo from a foreign directory against the given tree."""
    t = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), t)
        return sh(["bash", os.path.join(t, "demo.sh")], repo, 300, dict(ENV, PYTHONPATH=repo))
    finally:
        shutil.rmtree(t)


def one(i, tests, check=True):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = []
    try:
        repo = os.path.join(top, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        rc, o = demo(d, repo)
        out.append("demo-clean:%s" % ("ok" if rc == 0 else "FAILS " + o[-300:]))
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return i, ["PATCH DOES NOT APPLY " + o[-300:]]
        rc, o = demo(d, repo)
        out.append("demo-bug:%s" % ("ok" if rc != 0 else "PASSES (bad)"))
        if tests:
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=300", "dsps"], repo)
            bad = [x.replace("/", ".").replace(".py::", "::") for x in re.findall(r"(?:FAILED|ERROR) (\S+)", o)]
            bad = [x for x in bad if x in STABLE or "::" not in x]
            out.append("tests:%s" % ("ok" if not bad else "FAIL " + " ".join(bad)[:300]))
        if check:
            pids = [meta["property"]] + os.environ.get("ALSO", "").split()
            for p in pids:
                rc, o = sh(["./check", p, "quick"], V, 1500, dict(ENV, PBT_REPO=repo, PBT_NOEVIDENCE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                hit = re.search(r"VIOLATION property=%s .*" % p, o)
                n = len(re.findall(r"VIOLATION property=", o))
                fac = sorted(set(re.findall(r"replays/%s-([\w-]+?)-[0-9a-f]{10}" % p, o)))
                out.append("%s:%s" % (p, "caught(%d) %s" % (n, ",".join(fac)) if rc == 1 and hit else "MISSED rc=%d %s" % (rc, o[-200:] if rc not in (0, 1) else "")))
        return i, out
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notests" not in a
    check = "--nocheck" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(1 if check else 3) as ex:
        for i, o in ex.map(lambda i: one(i, tests, check), ids):
            print(i, "|", " | ".join(o), flush=True)
            m = re.match(r"(C\d+):(caught\(\d+\) ?([\w,-]*)|MISSED)", o[-1])
            if m:
                fn = os.path.join(V, "tools", "catches.json")
                c = json.load(open(fn)) if os.path.exists(fn) else {}
                c[i] = "missed" if "MISSED" in m.group(2) else " ".join([m.group(1)] + (m.group(3) or "").split(",")).strip()
                json.dump(c, open(fn, "w"), indent=1, sort_keys=True)
