"""DESIGN.md from tools/design.md: fills in the repaired defects and the table of planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = [json.loads(x) for x in open(os.path.join(V, "known_findings.jsonl")) if x.strip()]
by = {}
for f in fixes:
    if f["status"] == "fixed":
        by.setdefault(f["property"], []).append(f"* {f['property']}, {f['commit']}: {f['what']}")
text = "\n".join(x for k in sorted(by) for x in by[k])
res = json.load(open(os.path.join(V, "tools/seed_results.json")))
rows = ["| planted bug | property | needs | caught by |", "|-|-|-|-|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n, '?')} |")
s = open(os.path.join(V, "tools/design.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@FIXES@", text).replace("@SEEDS@", "\n".join(rows)))
