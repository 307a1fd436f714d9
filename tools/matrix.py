#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    f = sorted(set(re.findall(r"^\+\+\+ b/(.*)$", open(os.path.dirname(m) + "/patch.diff").read(), re.M)))
    rows.append((d["property"], i, ", ".join(os.path.basename(x) for x in f), d["needs"].replace("|", "/").strip()))
rows.sort()
head = "## Planted bugs and the checks that catch them\n"
text = head + f"""
{len(rows)} planted bugs are kept in `seeded/`. Each is caught by the quick check (seed 1) of the property in the
first column; the ones first missed, and what was strengthened, are in the list of mistakes above.

| caught by | planted bug | file | needs |
|---|---|---|---|
""" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = root + "/DESIGN.md"
s = open(p).read()
if head in s:
    s = s[:s.index(head)]
open(p, "w").write(s.rstrip() + "\n\n" + text)
