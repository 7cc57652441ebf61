"""Writes DESIGN.md from tools/design_head.md, the property modules, known-findings.txt and seeded/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import core, env  # noqa: E402

env.add_hypothesis_path()


def rd(*p):
    return open(os.path.join(HERE, *p)).read()


fixed = []
for line in rd("known-findings.txt").splitlines():
    if line.startswith("fixed:"):
        _, prop, commit, rest = line.split(" ", 3)
        fixed.append("| {0} | {1} | {2} |".format(prop.split("=")[1], commit, rest.replace("|", "\\|")))
props = []
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    m = core.load_prop(p["id"])
    f = ", ".join("`{0}` {1}/{2}".format(x.name, x.quick * (core.QUICK_SCALE.get(p["id"], 3) if x.quick > 1 else 1), x.thorough) for x in m.FACETS)
    props += [
        "### {0} {1}".format(p["id"], p["title"]),
        "",
        "* Specified: the statement in properties.jsonl, for " + p["quantifier"]["text"] + ".",
        "* Generated: " + m.RULE,
        "* Oracle: " + m.TECHNIQUE + ". " + m.NOTE,
        "* Assumed / bounds: " + "; ".join(m.ASSUMPTIONS) + ".",
        "* Facets (cases quick/thorough): " + f + ".",
        "* Beyond the tests: " + p["why_tests_cant"],
        "",
    ]
catches = json.loads(rd("tools", "catches.json"))
bugs = ["| bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.loads(rd("seeded", i, "meta.json"))
    bugs.append("| {0} | {1} ({2}) | {3} |".format(i, meta["what_it_breaks"].replace("|", "\\|"), meta["needs"].replace("|", "\\|"), catches.get(i, "not run yet")))
out = rd("tools", "design_head.md")
for k, v in (("@FIXED@", "\n".join(fixed)), ("@PROPS@", "\n".join(props)), ("@BUGS@", "\n".join(bugs)), ("@MISSES@", rd("tools", "misses.md").strip())):
    out = out.replace(k, v)
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
print(len(props) // 8, "properties,", len(bugs) - 2, "bugs")
