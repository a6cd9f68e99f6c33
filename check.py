#!/usr/bin/env python3
"""check.py <property> [--strict] -- decide one property of /repo's current source.

exit 0: no obligation of the property is violated; exit 1: VIOLATION line.
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def main():
    pid = sys.argv[1]
    strict = "--strict" in sys.argv
    root = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from sa.core import Ctx
    from sa.rules import RULES
    rule = RULES[pid]
    errors = []
    ctx = None
    try:
        ctx = Ctx(root, tier)
    except Exception as e:       # source not analysable: no answer about it
        errors.append("load: %r" % e)
    selftest = None
    if ctx is not None:
        for fn in rule["fns"]:
            n0 = len(ctx.obs)
            try:
                fn(ctx)
            except Exception as e:
                errors.append("%s: %r" % (fn.__name__, e))
                if strict:
                    traceback.print_exc()
                # conclusions of a rule that did not finish are withdrawn
                for o in ctx.obs[n0:]:
                    if o.verdict == "violated":
                        o.verdict = "unknown"
                        o.detail = "(rule did not finish) " + o.detail
        if tier == "thorough":
            from sa import selftest as ST
            try:
                selftest = ST.run(pid, root)
            except Exception as e:
                errors.append("selftest: %r" % e)
    obs = ctx.obs if ctx is not None else []
    kf = [k for k in known_findings() if k["property"] == pid]
    bad, known = [], []
    for o in obs:
        if o.verdict != "violated":
            continue
        m = [k for k in kf if k["key"] == o.key]
        (known if m else bad).append((o, m[0] if m else None))
    for o, k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    counts = {v: sum(1 for o in obs if o.verdict == v) for v in ("holds", "violated", "unknown")}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": rule["level"],
        "coverage": {
            "explanation": rule["explain"],
            "obligations": len(obs),
            "discharged": counts["holds"],
            "undecided": counts["unknown"],
            "violated": counts["violated"],
            "functions_analysed": len(ctx.analysed) if ctx else 0,
            "functions_in_package": ctx.repo.functions if ctx else 0,
            "dataflow_events": ctx.events if ctx else 0,
            "analysed": sorted(ctx.analysed)[:400] if ctx else [],
            "details": [{"obligation": o.name, "verdict": o.verdict, "where": o.where,
                         "detail": o.detail[:300]} for o in obs[:600]],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"obligation": o.name, "where": o.where, "detail": o.detail} for o, _ in bad],
        "assumptions": rule.get("assumptions", []),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    if selftest is not None:
        ev["coverage"]["selftest"] = selftest
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    out = os.path.join(HERE, "evidence", pid + ".json")
    with open(out, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d functions, %.2f s)" % (
        pid, len(obs), counts["holds"], counts["unknown"], counts["violated"],
        len(ctx.analysed) if ctx else 0, time.time() - t0))
    if strict or bad:
        for o in obs:
            if o.verdict != "holds" or "-v" in sys.argv:
                print("  [%s] %s @ %s: %s" % (o.verdict, o.name, o.where, o.detail[:400]))
        for e in errors:
            print("  error: " + e)
    if bad:
        rep = os.path.join(HERE, "evidence", pid + ".report.txt")
        with open(rep, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, rule["explain"]))
            for o, _ in bad:
                f.write("VIOLATED %s\n  at %s\n  %s\n\n" % (o.name, o.where, o.detail))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if not counts["holds"]:
        print("ERROR: nothing could be decided: %s" % "; ".join(errors))
        return 2
    for o in obs:
        if o.verdict == "unknown" and not strict:
            print("UNDECIDED %s @ %s: %s" % (o.name, o.where, o.detail[:160]))
    if strict and (errors or counts["unknown"] or len(obs) < rule["min"]):
        print("STRICT: incomplete (%d undecided, %d obligations, min %d)" % (counts["unknown"], len(obs), rule["min"]))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
