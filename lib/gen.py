#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/statements.py and lib/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import statements, props
V = os.path.dirname(H)
out = []
checks = []
for pid in sorted(statements.P):
    p = statements.P[pid]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"):
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    assert len(p["title"]) <= 80, pid
    assert pid in props.CHECKS or pid in statements.NA, pid
    out.append({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                "why_tests_cant": p["why"], "anchors": a})
    if pid in props.CHECKS:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
for pid in props.CHECKS:
    assert pid in statements.P, pid
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py opt", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(statements.NA.items())],
           "notes": statements.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("%d properties, %d checks" % (len(out), len(checks)))
