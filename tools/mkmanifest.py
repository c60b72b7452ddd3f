#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
CLAIMED = sys.argv[1].split(",")
NOTE = "Seeded search over generated scenarios in the simulator; nothing is enumerated exhaustively."
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash /verif/build.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks run one binary, /verif/sim (a deterministic simulator around the real ntex-amqp). Replay a violation with: /verif/sim/target/debug/amqpsim replay FILE",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "evidence_file": f"/verif/evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, transport behaviour, peer behaviour and faults; history oracle",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
