#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties (run by hand)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    "C20": "Interface inheritance and the compatibility test of an implementation are pure functions of their arguments; "
           "there is no schedule, fault, time or durable state to simulate.",
    "C21": "Conversions between amounts and decimal texts are pure functions of their argument: no schedule, fault, time "
           "or durable state takes part, so simulating executions decides nothing beyond plain random testing.",
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection, seeded search",
        "level": "exploration",
        "level_note": "Seeded sample of schedules and fault sequences over a bounded world (few wallets, contracts and "
                      "tens of steps per run); the chain, network, disk, clock and randomness are simulated, the library "
                      "code is real.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "All seams exist already (witness resolver, storage provider, libc below the standard library), so /repo has "
             "no hooks; its commits are repairs of defects only. See DESIGN.md and KNOWN_FINDINGS.",
}
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
