#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, the table, the property modules' RULE/ASSUMPTIONS, known_findings.jsonl and seeded/."""
import ast, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from table import P, NA
o = [open(here + "/design_head.md").read().rstrip(), "", "## Properties", "",
     "For each: what is enumerated and compared (the deciding step), the bounds, the assumptions, the measured size of the quick tier and why tests do not reach it.", ""]
SZ = json.load(open(here + "/sizes.json")) if os.path.exists(here + "/sizes.json") else {}
for p in P:
    c = {}
    f = f"{root}/props/{p['id'].lower()}.py"
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    o += [f"### {p['id']} {p['title']}", "", f"*Statement.* {p['statement']}", "", f"*Enumerated.* {c.get('RULE', p['q'])}.", "",
          f"*Bounds.* {p['q']} ({p['note']})." + (f" *Assumptions.* {'; '.join(c['ASSUMPTIONS'])}." if c.get("ASSUMPTIONS") else ""), "",
          f"*Why not tests.* {p['why']}." + (f" *Quick tier.* {SZ[p['id']]}." if p["id"] in SZ else ""), "",
          f"*Code.* {', '.join(x.replace('src/probnum/', '') for x in p['files'])}", ""]
o += ["No property is listed as not applicable." if not NA else "Not applicable: " + "; ".join(f"{k}: {v}" for k, v in NA.items()), ""]
o += ["## Genuine defects found", "", "Repaired in /repo (one commit each), or recorded as known finding:", ""]
for l in open(root + "/known_findings.jsonl"):
    k = json.loads(l)
    o.append(f"* {k['id']} {k['status']} ({k['property']}): {k['what'].replace('fixed: property=' + k['property'] + ' ', '')}")
o += ["", open(here + "/design_tail.md").read().rstrip(), "", "## Planted bugs", ""]
R = json.load(open(here + "/seeds.json")) if os.path.exists(here + "/seeds.json") else {}
o += ["| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    o.append(f"| {i} | {d['property']} | {d['needs']} | {R.get(i, d['property'])} |")
if os.path.exists(here + "/mutation.md"):
    o += ["", open(here + "/mutation.md").read().rstrip()]
open(root + "/DESIGN.md", "w").write("\n".join(o) + "\n")
