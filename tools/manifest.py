#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the check modules (LEVEL, TECHNIQUE, NOTE constants)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, "harness", "check_%s.py" % p["id"].lower())
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    k = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            k[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
                   "thorough_cmd": "bin/check %s thorough" % p["id"],
                   "technique": k.get("TECHNIQUE", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                   "level": k.get("LEVEL", "model_checking"),
                   "level_note": k.get("NOTE", "Design model checked exhaustively for small constants; recorded executions of the implementation validated step by step against the same operators. Trusts TLC and the harness projection.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "All checks: bin/check <id> <tier>. Specifications in spec/, harness in harness/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
