#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import CHECKS
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

checks = []
for p in PROPS:
    i = p["id"]
    if i not in CHECKS:
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}",
                       thorough_cmd=f"python3 check.py {i} --thorough",
                       technique=p.get("technique", "exhaustive bounded enumeration of operation sequences on the real code against a reference model"),
                       level="model_checking", level_note=p["note"]))
claimed = {c["property"] for c in checks}
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check built yet")) for p in PROPS if p["id"] not in claimed]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: every check drives the public API of the sources in /repo, compiled from the working tree.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
for p in PROPS:
    for f in p["files"] + [w for _, w in p["mech"]]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
