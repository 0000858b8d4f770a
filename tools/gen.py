#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
import props, rules
checks, na, lines = [], [], []
for p in props.PROPS:
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    if p.get("state"):
        q["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    assert len(q["title"]) <= 80, (p["id"], len(q["title"]))
    lines.append(json.dumps(q))
    if p.get("na"):
        assert p["id"] not in rules.RULES, p["id"]
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        assert p["id"] in rules.RULES, p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": p["tech"], "level": "other", "level_note": p["note"]})
missing = set(rules.RULES) - {p["id"] for p in props.PROPS}
assert not missing, missing
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na, "notes": props.NOTES},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
json.dump({"findings": props.FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in props.FIXED]}, open(V + "/known_findings.json", "w"), indent=1)

import glob
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
d = open(V + "/tools/design_head.md").read() + "## Properties\n\n"
for p in props.PROPS:
    d += f"### {p['id']} {p['title']}\n\n"
    if p.get("na"):
        d += f"Not applicable: {p['na']}\n\n"
        continue
    mod, fn = rules.RULES[p["id"]]
    d += f"* Rule: `rules/{mod}.py` `{fn}`; {p['tech']}.\n* Ranges over: {p['qtext']}.\n* Why tests do not settle it: {p['why']}\n"
    if p["how"]:
        d += f"* How: {p['how']}\n"
    n = p["note"].replace(props.TRUST, "")
    if n:
        d += f"* Bounds and assumptions: {n}\n"
    for k, j in seeds.get(p["id"], ()):
        c = j.get("caught_by", p["id"])
        d += f"* Planted bug `{k}`: {j['what_it_breaks']} " + (f"(caught by {c})" if c else "(not caught)") + "\n"
    d += "\n"
d += "## Genuine defects repaired\n\n" + "".join(f"* {a} ({b}): {w}\n" for a, b, w in props.FIXED)
if props.FINDINGS:
    d += "\n## Known findings (not repaired)\n\n" + "".join(f"* {x['property']} `{x['key']}`: {x['what']}\n" for x in props.FINDINGS)
tail = V + "/tools/design_tail.md"
if os.path.exists(tail):
    d += "\n" + open(tail).read()
open(V + "/DESIGN.md", "w").write(d)
