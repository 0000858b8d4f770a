#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property of /repo's current tree.

exit 0: held; exit 1 with `VIOLATION property=<id> replay=<file>` lines otherwise.
"""
import importlib
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/sa")
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    import facts
    from ctx import Ctx
    from prog import Prog, AnchorError
    import rules
    mod, fn = rules.RULES[pid]
    ctx = None
    try:
        P = Prog()
    except facts.FactsError as e:
        print(e, file=sys.stderr)
        print(f"error: the analysis build of /repo failed; nothing was decided for {pid}", file=sys.stderr)
        return 2
    ctx = Ctx(pid, P, tier)
    try:
        getattr(importlib.import_module("rules." + mod), fn)(ctx)
    except AnchorError as e:
        ctx.violation("anchor", f"the construct this property is anchored to is gone: {e}", None, 0)
    except Exception:
        tb = traceback.format_exc()
        if os.environ.get("SA_DEBUG"):
            raise
        ctx.violation("analysis-failed", "the rule could not analyse the current source (fails closed):\n" + tb, None, 0)
    ctx.finish_floors()
    known = {}
    with open(VERIF + "/known_findings.json") as f:
        for k in json.load(f)["findings"]:
            if k["property"] == pid:
                known[k["key"]] = k
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(pid + "-"):
            os.remove(f"{rdir}/{n}")
    bad = 0
    seen = set()
    for v in ctx.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={pid} {v['key']}: {known[v['key']]['what']}")
            continue
        bad += 1
        if bad > 25:
            continue
        path = f"{rdir}/{pid}-{bad}.json"
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        loc = f"{v['file']}:{v['line']}" if v["file"] else "-"
        print(f"{loc}: [{v['key']}] {v['message']}")
        print(f"VIOLATION property={pid} replay={path}")
    n = ctx.obligations
    cov = {
        "explanation": ctx.rule_text or "see DESIGN.md",
        "obligations": n,
        "discharged": n - len([1 for v in ctx.violations if v["counts"]]),
        "checker_cmd": f"python3 /verif/check.py {pid}",
        "trusted_base": ctx.trusted,
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions)[:200],
        "abstract_paths": ctx.paths,
        "call_sites": ctx.sites,
        "instances": ctx.counts,
        "known_findings_reported": sorted(k for k in seen if k in known),
        "samples": ctx.samples[:12],
        "source_key": P.key,
        "bodies_in_program": len(P.fn),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov,
        "wall_s": round(time.time() - t0, 2), "violations": bad,
    }
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {n} obligations, {len(ctx.functions)} functions, {ctx.paths} abstract paths, {bad} violations, {time.time()-t0:.1f}s")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
