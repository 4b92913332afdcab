#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a TestCxx in the harness is claimed."""
import glob, json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
built = set()
for f in glob.glob(f"{root}/harness/props/*_test.go"):
    built |= set(re.findall(r"func Test(C\d+)\(", open(f).read()))
tech = json.load(open(f"{root}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t, note = tech[i]
        checks.append({
            "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t,
            "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "verif", "enable": "no hooks are needed; the checks use only the exported API", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are rapid generators with explicit oracles in harness/props; see DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
