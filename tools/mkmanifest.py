"""Writes MANIFEST.json: one check per property that has a module in vf/checks."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(V, "vf", "checks", i.lower() + "_*.py")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "PYTHONDONTWRITEBYTECODE=1 python3-vt -m vf.run %s --tier quick" % i,
            "thorough_cmd": "PYTHONDONTWRITEBYTECODE=1 python3-vt -m vf.run %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "property-based testing (Hypothesis) against an oracle"),
            "level": "exploration",
            "level_note": n.get("note", "Holds on all generated cases; no claim beyond them.") ,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of /repo/svgio from its working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except (ImportError, OSError):
    pass
print(len(checks), "checks,", len(na), "not claimed")
