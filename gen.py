#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/props.py and the registered rules"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.props import P          # noqa
from sa.rules import RULES      # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in RULES or p["_na"]:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_na"}) + "\n")
checks = []
for p in P:
    if p["id"] in RULES:
        r = RULES[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
            "technique": r.get("technique", "value-flow / effect analysis of the source (static)"),
            "level": r["level"],
            "level_note": "Decided from the syntax trees in /repo on every run, as value-flow summaries (gated terms, joined at merges) of the analysed entry "
                          "points over arbitrary inputs; trusts the analyser's models of the Python, numpy, netCDF4 and numba calls it meets and "
                          "treats arithmetic as exact. " + r["explain"],
        })
na = [{"property": p["id"], "reason": p["_na"]} for p in P if p["_na"]]
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, json'", "checks": checks, "not_applicable": na,
     "notes": "No hooks are used: the checks only read the source."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
D = os.path.join(HERE, "DESIGN.md")
if os.path.exists(D):
    t = open(D).read()
    a, b = "<!-- generated: rules -->\n", "<!-- end generated -->\n"
    if a in t:
        rows = []
        for p in P:
            if p["id"] in RULES:
                r = RULES[p["id"]]
                rows.append("### %s %s\n\n*Specified:* %s\n\n*Rule:* %s%s\n\n*Why beyond the tests:* %s\n" % (
                    p["id"], p["title"], p["statement"], r["explain"],
                    (" *Bound:* " + r["bound"]) if r.get("bound") else "", p["why_tests_cant"]))
            elif p["_na"]:
                rows.append("### %s %s (not applicable)\n\n%s\n" % (p["id"], p["title"], p["_na"]))
        t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
        open(D, "w").write(t)
print(len(checks), "claimed;", len(na), "not applicable")
bad = [p["id"] for p in P if len(p["title"]) > 80]
assert not bad, bad
