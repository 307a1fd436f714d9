#!/usr/bin/env python3
"""Writes MANIFEST.json from the property files present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["not_applicable"]:
        na.append({"property": i, "reason": T["not_applicable"][i]})
        continue
    if not os.path.exists(os.path.join(V, "props", i + ".cpp")):
        na.append({"property": i, "reason": "Check not built yet."})
        continue
    src = open(os.path.join(V, "props", i + ".cpp")).read()
    rule = re.search(r'PBT_MAIN\("%s",\s*((?:"[^"]*"\s*)+)\)' % i, src).group(1)
    rule = "".join(re.findall(r'"([^"]*)"', rule))
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s" % i,
                   "technique": T["technique"].get(i, T["default"]), "level": "exploration", "level_note": rule})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "One script, check.py, builds the property's harness (props/<ID>.cpp plus engine/) with AddressSanitizer from /repo's working tree and runs it; VERIF_TIER selects the depth, VERIF_SEED the random stream. No hooks are needed in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
