"""Writes MANIFEST.json from the list of checks that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "checks", i.lower() + ".py")):
        cmd = f"/opt/venv/bin/python check.py {i}"
        t = T[i]
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd,
                           evidence_file=f"evidence/{i}.json", technique=t[0],
                           level="exploration", level_note=t[1]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
