#!/usr/bin/env python3
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
 "N01": "pure function of its arguments (no schedule, clock, fault, I/O or shared state): nothing for a simulator to decide",
 "N02": "pure functions over a byte slice; no schedule, fault or interleaving can influence the result",
 "N03": "pure functions over a byte slice; no schedule, fault or interleaving can influence the result",
 "N04": "pure function of one byte string; the robustness of the same parsers under damage is S08, the picture size, which sessions announce, is S05",
 "N05": "pure bounds arithmetic on one slice; the damaged-input consequences that reach a session are decided by S08",
 "N06": "single-threaded list insertion with one duplicate check; no schedule, fault or history dependence beyond the list itself",
}
CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        man["checks"].append({
            "property": i,
            "quick_cmd": f"bash bin/check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash bin/check.sh {i}",
            "technique": "deterministic simulation with fault injection: " + CLAIMED[i]["technique"],
            "level": "exploration",
            "level_note": CLAIMED[i]["note"],
        })
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: machinery under construction")})
man["notes"] = ("No hooks are added to /repo: every seam is created at build time by cmd/instrument, which rewrites a scratch copy of "
  "/repo's working tree (yield points, map order, sync/atomic/time/rand/os redirection). See DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
