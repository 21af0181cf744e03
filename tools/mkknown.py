"""Writes known_findings.json from the fix: commits of /repo (each is one repaired defect) and tools/findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fix_properties.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        fixed.append("fixed: property=%s %s (the commit: %s)" % (PROP.get(h, "C04"), h, s))
        if h not in PROP: print("no property for", h, s)
findings = json.load(open(os.path.join(V, "tools", "findings.json")))
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
