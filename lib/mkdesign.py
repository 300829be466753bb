#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md from properties.jsonl, checks.py and known-findings.jsonl."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, HARNESSES
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
found = [json.loads(l) for l in open(os.path.join(ROOT, "known-findings.jsonl")) if l.strip()]
out = []
for p in props:
    c = CHECKS.get(p["id"])
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    if not c:
        out.append("Not claimed."); out.append(""); continue
    out.append("- Decided by: %s (%s)." % (c["technique"], "; ".join("`harness/%s` built with %s" % (HARNESSES[h["exe"]]["src"][1].split("/")[1], ", ".join(h["variants"])) for h in c["harness"])))
    out.append("- Executions: " + c["rule"])
    if c["assumptions"]: out.append("- Assumes: " + "; ".join(c["assumptions"]))
    out.append("- Must have been seen: " + ", ".join(c["require"]) + ".")
    out.append("- Bounds: " + c["note"])
    out.append("- Beyond the tests: the executions range over %s; %s." % (p["quantifier"]["text"], p["why_tests_cant"]))
    out.append("")
fixed, known = {}, []
for f in found:
    if f["status"] == "fixed":
        m = re.match(r"fixed: property=\S+ (\w+) (.*)", f["what"])
        fixed.setdefault(m.group(1), [[], m.group(2)])[0].append(f["property"])
    else:
        known.append("- %s `%s`: %s" % (f["property"], f["key"], f["what"]))
bugs = ["| Planted bug | Property | Needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if os.path.isdir(os.path.join(ROOT, "seeded")) else []:
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    bugs.append("| `%s` | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
parts = {"seeded": "\n".join(bugs), "properties": "\n".join(out),
         "fixed": "\n".join("- %s (%s): %s" % (k, ", ".join(v[0]), v[1]) for k, v in fixed.items()),
         "known": "\n".join(known)}
path = os.path.join(ROOT, "DESIGN.md")
t = open(path).read()
for k, v in parts.items():
    a, b = "<!-- begin %s -->" % k, "<!-- end %s -->" % k
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + v + "\n" + t[j:]
open(path, "w").write(t)
