"""Writes DESIGN.md from design_body.md, known_findings.json and catch.json
(gen_design.py OUT ... : first add the verdicts in outputs of plant.py)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CJ = os.path.join(H, "tools", "catch.json")
catch = json.load(open(CJ)) if os.path.exists(CJ) else {}
for f in sys.argv[1:]:
    cur = None
    for l in open(f):
        m = re.match(r"== (\S+) \[", l)
        if m:
            cur = m.group(1)
            catch.setdefault(cur, {})
        m = re.match(r"\s+(C\d\d): rc=(\d)(.*)", l)
        if m and cur:
            catch[cur][m.group(1)] = int(m.group(2))
catch = {k: v for k, v in sorted(catch.items()) if os.path.isdir(os.path.join(H, "seeded", k))}
json.dump(catch, open(CJ, "w"), indent=1)
rows = []
for k in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", k, "meta.json")))
    v = catch.get(k, {})
    c = ", ".join(p for p, r in sorted(v.items()) if r == 1) or "–"
    n = ", ".join(p for p, r in sorted(v.items()) if r != 1) or "–"
    rows.append(f"| {k} | {m['what_it_breaks']} | {m['needs']} | {c} | {n} |")
mat = ("| change | breaks | needs | caught by (quick, seed 1) | run and not caught by |\n|---|---|---|---|---|\n"
       + "\n".join(rows))
fs = json.load(open(os.path.join(H, "known_findings.json")))["findings"]
op = [f for f in fs if f["status"] != "fixed"]
fx = [f for f in fs if f["status"] == "fixed"]
t = "Recorded, not repaired:\n" + "\n".join(f"- **{f['id']}** ({f['property']}): {f['what']}" for f in op)
t += "\n\nRepaired (`fix:` commits in /repo):\n" + "\n".join(
    f"- {f['id']}: {f['what'].replace('fixed: ', '')}" for f in fx)
s = open(os.path.join(H, "tools", "design_body.md")).read()
open(os.path.join(H, "DESIGN.md"), "w").write(s.replace("FINDINGS_TABLE", t).replace("CATCH_MATRIX", mat))
