#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.json (statements, anchors) and checks.json (bounds)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(os.path.join(R, "properties.json")))
conf = json.load(open(os.path.join(R, "checks.json")))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        checks.append({
            "property": i,
            "quick_cmd": "python3 lib/vp.py check %s quick" % i,
            "thorough_cmd": "python3 lib/vp.py check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "solver-based: symbolic execution of the compiled real code (LLVM IR), z3 decides every branch and assertion",
            "level": "model_checking",
            "level_note": "Holds for all real values of the symbolic inputs within: %s. Trusts clang, the instrumentation pass and z3; doubles are modelled as exact reals; "
                          "counterexamples are replayed on an uninstrumented build before they are reported." % conf[i]["bounds"]})
    else:
        na.append({"property": i, "reason": p["na"]})
json.dump({"version": 1, "setup_cmd": "python3 lib/vp.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile /repo's headers as they are. Design and per-property bounds: DESIGN.md."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)

d = os.path.join(R, "DESIGN.md")
t = open(d).read()
a, b = "<!-- table begin -->", "<!-- table end -->"
if a in t:
    rows = ["", "| id | property | harnesses | bounds | assumptions |", "|---|---|---|---|---|"]
    for p in props:
        c = conf.get(p["id"])
        if c:
            rows.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], ", ".join("`harness/%s`" % s for s in c["sources"]), c["bounds"], "; ".join(c["assumptions"]) or "-"))
        else:
            rows.append("| %s | %s | not applicable | %s | |" % (p["id"], p["title"], p["na"]))
    t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
    open(d, "w").write(t)
