#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/table.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from table import PROPERTIES, NOT_APPLICABLE
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPERTIES + NOT_APPLICABLE:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "reason")}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's sources as they are with -fsanitize=thread and link them to sim/ (own __tsan_* runtime, libc interposition), which is the seam", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded schedules and faults, replayable)",
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPERTIES],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "DESIGN.md describes the simulator, the properties, the defects found and the planted changes. KNOWN_FINDINGS lists defects of tgeijten/xo, repaired or recorded.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
