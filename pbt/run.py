"""Check runner: ./check <property> [quick|thorough] [--replay FILE] [--facet NAME]"""
import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = dict(quick=100.0, thorough=780.0)
HARD = dict(quick=600.0, thorough=3000.0)


def findings(pid):
    out = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                d = json.load(open(os.path.join(HERE, m.group(2))))
                out.append(dict(facet=d["facet"], case=d["case"], finding=m.group(3)))
    return out


def regressions(pid):
    out = []
    for fn in sorted(glob.glob(os.path.join(HERE, "regress", pid + "-*.json"))):
        d = json.load(open(fn))
        out.append(dict(facet=d["facet"], case=d["case"], regress=os.path.relpath(fn, HERE)))
    return out


def load(pid):
    """Property modules import the code under test only inside their facets."""
    sys.path.insert(0, HERE)
    from pbt import core, env

    env.add_hypothesis_path()
    return core.load_prop(pid)


def make_tasks(mod, tier):
    out = []
    for f in mod.FACETS:
        for sh in range(f.qshards if tier == "quick" else f.tshards):
            out.append(dict(facet=f.name, shard=sh, cost=f.cost))
    return out


def write_replay(pid, facet, case, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=pid, facet=facet, case=case, message=msg), indent=1, sort_keys=True)
    h = hashlib.sha1(body.encode()).hexdigest()[:10]
    fn = os.path.join(d, "{0}-{1}-{2}.json".format(pid, facet, h))
    with open(fn, "w") as f:
        f.write(body + "\n")
    return os.path.relpath(fn, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="pbt-" + pid + "-")
    try:
        rc = run(a, pid, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def run(a, pid, tier, seed, tmp, t0):
    mod = load(pid)
    env = dict(os.environ)
    env["PBT_TMP"] = tmp
    env["TMPDIR"] = tmp
    env.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"

    if a.replay:
        d = json.load(open(a.replay))
        cases = [dict(facet=d["facet"], case=d["case"], replay=a.replay)]
        tasks = []
    else:
        cases = findings(pid) + regressions(pid)
        tasks = make_tasks(mod, tier)
        if a.facet:
            tasks = [t for t in tasks if t["facet"] == a.facet]
            cases = []
    nw = max(1, min(a.workers, len(tasks)))
    groups = [[] for _ in range(nw)]
    busy = [0.0] * nw
    for t in sorted(tasks, key=lambda t: -t["cost"]):
        i = busy.index(min(busy))
        groups[i].append(t)
        busy[i] += t["cost"]
    for g in groups:
        rest = sum(t["cost"] for t in g)
        for t in g:
            t["share"] = min(1.0, t["cost"] / rest) if rest > 0 else 1.0
            rest -= t["cost"]
    light = busy.index(min(busy))
    groups[light] = cases + groups[light]
    procs = []
    for i, g in enumerate(groups):
        job = os.path.join(tmp, "job%d.json" % i)
        out = os.path.join(tmp, "out%d.jsonl" % i)
        json.dump(dict(prop=pid, tier=tier, seed=seed, budget=BUDGET[tier], tasks=g), open(job, "w"))
        log = open(os.path.join(tmp, "log%d" % i), "w")
        e = dict(env)
        wtmp = os.path.join(tmp, "w%d" % i)
        os.makedirs(wtmp)
        e["PBT_TMP"] = e["TMPDIR"] = wtmp
        procs.append(
            (
                subprocess.Popen(
                    [sys.executable, "-m", "pbt.worker", job, out], cwd=HERE, env=e,
                    stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                    start_new_session=True,
                ),
                out, log.name,
            )
        )
    deadline = t0 + HARD[tier]
    errors, results, caseres, imports = [], [], [], []
    for p, out, log in procs:
        try:
            rc = p.wait(timeout=max(1.0, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            import signal

            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        done = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["kind"] == "facet":
                    results.append(d)
                    if d["error"]:
                        errors.append("{0}/{1}: {2}".format(d["facet"], d["shard"], d["error"]))
                elif d["kind"] == "case":
                    caseres.append(d)
                elif d["kind"] == "import":
                    imports.append(d["msg"])
                elif d["kind"] == "error":
                    errors.append(d["msg"])
                elif d["kind"] == "done":
                    done = True
        if rc != 0 or not done:
            errors.append("worker ended with {0}:\n{1}".format(rc, open(log).read()[-3000:]))

    violations, known = [], []
    for msg in sorted(set(imports)):
        violations.append((write_replay(pid, "import", {}, msg), "import", msg))
    for d in caseres:
        t = d["task"]
        if d["status"] == "error":
            errors.append("{0}: {1}".format(t.get("regress") or t.get("finding") or "replay", d["msg"]))
        elif d["status"] == "violation":
            if "finding" in t:
                known.append(t["finding"])
            else:
                fn = t.get("replay") or t["regress"]
                violations.append((fn, t["facet"], d["msg"]))
    best = {}
    for r in results:
        if r["violation"]:
            c = r["violation"]
            key = (len(json.dumps(c["case"])), r["shard"])
            if r["facet"] not in best or key < best[r["facet"]][0]:
                best[r["facet"]] = (key, c)
    for facet in sorted(best):
        c = best[facet][1]
        violations.append((write_replay(pid, facet, c["case"], c["msg"]), facet, c["msg"]))

    if a.replay:
        for fn, facet, msg in violations:
            print("facet {0}: {1}".format(facet, msg))
            print("VIOLATION property={0} replay={1}".format(pid, fn))
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        if not violations and not errors:
            print("replay of {0}: the property holds".format(a.replay))
        return 1 if violations else (2 if errors else 0)

    evals = sum(r["evaluations"] for r in results)
    per = {}
    allh = set()
    for r in results:
        f = per.setdefault(
            r["facet"],
            dict(evaluations=0, nontrivial=0, rejected=0, budget_hit=0, labels={}, worker_s=0.0),
        )
        f["evaluations"] += r["evaluations"]
        f["rejected"] += r["rejected"]
        f["budget_hit"] += int(r["budget_hit"])
        f["worker_s"] = round(f["worker_s"] + r["wall_s"], 1)
        for k, v in r["labels"].items():
            f["labels"][k] = f["labels"].get(k, 0) + v
        hs = {r["facet"] + h for h in r["hashes"]}
        f["nontrivial"] += len(hs - allh)
        allh |= hs
    samples = []
    for r in results:
        if r["shard"] == 0:
            for c in r["samples"][:1]:
                s = json.dumps(c)
                samples.append(dict(facet=r["facet"], case=c if len(s) < 3000 else s[:3000] + "..."))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(allh), rule=mod.RULE,
            samples=samples[:12], facets=per,
            regression_cases=len([d for d in caseres if "regress" in d["task"]]),
            known_findings_reproduced=len(known),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.monotonic() - t0, 2),
        violations=len(violations),
    )
    if not a.facet:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, pid + ".json")
        with open(fn + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(fn + ".tmp", fn)

    for k in known:
        print("KNOWN-FINDING: property={0} {1}".format(pid, k))
    for fn, facet, msg in violations:
        print("facet {0}: {1}".format(facet, msg))
        print("VIOLATION property={0} replay={1}".format(pid, fn))
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    if a.v or a.facet:
        print(json.dumps(per, indent=1))
    print(
        "{0} {1} seed={2}: {3} cases, {4} distinct non-trivial, {5} violations, {6} errors, {7:.1f}s".format(
            pid, tier, seed, evals, len(allh), len(violations), len(errors), ev["wall_s"]
        )
    )
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
