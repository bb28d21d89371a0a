#!/usr/bin/env python3
"""rewrites the generated tail of DESIGN.md (sections 2 to 4) from checks.py, mk.py's properties, known-findings.txt and tools/catches.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
from checks import CHECKS
import mk
NA = mk.NA if hasattr(mk, "NA") else {}
D = V + "/DESIGN.md"
s = open(D).read()
MARK = "<!-- generated by tools/design.py below this line -->\n"
head = s.split(MARK)[0].rstrip("\n") + "\n\n" + MARK
o = []
o.append("## 2. Per property\n")
for p in mk.PROPS:
    i = p["id"]
    o.append("### %s %s" % (i, p["title"]))
    if i in CHECKS:
        c = CHECKS[i]
        o.append("*Deciding step:* Verus on unit%s %s. *Falsifier (bounded, never counted as proof):* %s, about %d s." % (
            "s" if len(c["units"]) > 1 else "", ", ".join("`units/%s.vu`" % u for u in c["units"]),
            "; ".join("driver `%s`%s" % (d["driver"], (" on " + d["files"]) if d.get("files") else "") for d in c["drivers"]), c["secs"]))
        o.append(c["note"])
    else:
        o.append("Not applicable: " + NA.get(i, "") + ".")
    o.append("")
o.append("## 3. Genuine defects found\n")
o.append("Repaired by a `fix:` commit in /repo (the checks pass on the repaired tree), or recorded in `known-findings.txt`:\n")
for l in open(V + "/known-findings.txt"):
    if l.startswith(("fixed:", "KNOWN")):
        o.append("* " + l.strip())
o.append("")
o.append("## 4. Planted bugs (`seeded/`) and what catches them\n")
o.append("| bug | needs | failed obligation | failing input found |\n|---|---|---|---|")
J = V + "/tools/catches.json"
res = json.load(open(J)) if os.path.exists(J) else {}
for sd in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{sd}/meta.json"))
    r = res.get(sd)
    o.append("| %s | %s | %s | %s |" % (sd, m["needs"].replace("|", "/"), (", ".join("`%s`" % x for x in r["obligations"]) or "none") if r else "?", ("yes" if r["falsifier"] else "no") if r else "?"))
open(D, "w").write(head + "\n".join(o) + "\n")
