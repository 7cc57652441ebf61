"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import core, env  # noqa: E402

env.add_hypothesis_path()
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "pbt", "props", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    m = core.load_prop(pid)
    checks.append(
        dict(
            property=pid,
            quick_cmd="./check {0} quick".format(pid),
            thorough_cmd="./check {0} thorough".format(pid),
            evidence_file="evidence/{0}.json".format(pid),
            technique="property-based testing (Hypothesis): " + m.TECHNIQUE,
            level="exploration",
            level_note=m.NOTE,
        )
    )
man = dict(
    version=1,
    setup_cmd="sh ./setup.sh",
    checks=checks,
    not_applicable=na,
    notes="Every check imports dsps straight from /repo's working tree; no hooks in /repo are needed. "
    "Replay: ./check <id> --replay <file>. Known and fixed defects: known-findings.txt.",
)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
