#!/usr/bin/env python3
"""Regenerates MANIFEST.json from driver/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import props
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{
        "property": k,
        "quick_cmd": "./check %s quick" % k,
        "thorough_cmd": "./check %s thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    } for k, p in sorted(props.PROPS.items())],
    "not_applicable": [{"property": k, "reason": r} for k, r in sorted(props.NOT_APPLICABLE.items())],
    "notes": "No hooks in /repo: every seam the simulator needs is a trait, a closure, an iterator, the global allocator, std::thread or the rayon-core dependency.",
}
for i in range(1, 21):
    k = "C%02d" % i
    if k not in props.PROPS and k not in props.NOT_APPLICABLE:
        m["not_applicable"].append({"property": k, "reason": "not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
