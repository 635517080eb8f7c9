#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import P, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    if p["id"] in NA or not os.path.exists(os.path.join(root, "props", p["id"].lower() + ".py")):
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} --tier quick",
                       thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="model_checking",
                       level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: every check drives the public interface of the working tree in /repo/src. "
               "Fix commits in /repo and known findings are listed in known_findings.jsonl.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties,", len(checks), "checks")
