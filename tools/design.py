#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.py, the evidence of the last quick runs, and tools/design_tail.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
out = [open(here + "/design_head.md").read(), "\n## 3. The properties\nThe counts are those of the last quick run; the thorough tier (in brackets in the bounds) goes deeper.\n"]
known = open(root + "/known-findings.txt").read().split("\n")
for p in PROPS:
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    out.append("*Statement.* %s\n" % p["statement"])
    if p.get("na"):
        out.append("*Not applicable*: %s\n" % p["na"]); continue
    out.append("*Quantifier*: %s. *Where*: %s.\n" % (p["q"], p["mech"]))
    try: e = json.load(open(root + "/evidence/%s.json" % p["id"]))
    except Exception: continue
    c = e["coverage"]
    out.append("*Enumeration and oracle.* %s\n" % c["rule"])
    out.append("| scenario | bound | executions | states | transitions |\n|---|---|---|---|---|")
    for s in c["per_scenario"]:
        b = s["bound"].replace("|", "\\|")
        if s.get("deviation_bound") is not None: b += " (at most %d deviations)" % s["deviation_bound"]
        out.append("| %s | %s | %d | %d | %d |" % (s["scenario"], b, s["executions"], s["states"], s["transitions"]))
    out.append("\n*Cost*: %.0f s on 8 cores with the build. *Limits*: %s" % (e["wall_s"], p["note"]))
    if e.get("assumptions"): out.append("*Assumes*: %s." % "; ".join(a.rstrip(".") for a in e["assumptions"]))
    k = [l for l in known if "property=%s " % p["id"] in l]
    if k: out.append("*Defects*: " + "; ".join(l.split("property=%s " % p["id"])[1] + (" (recorded)" if l.startswith("finding") else "") for l in k) + ".")
out.append(open(here + "/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("\n".join(out))
