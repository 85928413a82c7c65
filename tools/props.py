#!/usr/bin/env python3
"""The one list of properties: writes properties.jsonl, MANIFEST.json and tools/checks.txt from tools/props/*.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection, seeded search"
props, checks, na, table = [], [], [], []
for f in sorted(glob.glob(f"{V}/tools/props/*.json")):
    p = json.load(open(f))
    i = p["id"]
    props.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if "not_applicable" in p:
        na.append({"property": i, "reason": p["not_applicable"]})
        continue
    table.append(f"{i} {p['bin']}")
    checks.append({"property": i, "quick_cmd": f"bash tools/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {i}",
                   "technique": f"{TECH}: {p['technique']}", "level": "exploration", "level_note": p["level_note"]})
open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
hooks = json.load(open(f"{V}/tools/hooks.json"))
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
open(f"{V}/tools/checks.txt", "w").write("".join(t + "\n" for t in table))
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
