#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place for every text)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in props.P]
assert len(ids) == len(set(ids))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(d["title"]) <= 80, d["title"]
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["why_tests_cant"] = p["tests"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    c = {"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]}
    c["thorough_cmd"] = "VERIF_TIER=thorough python3 checks/%s.py" % p["id"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": props.NOTES}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
