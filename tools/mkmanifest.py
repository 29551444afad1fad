#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "Straight-line computation on in-memory values: no scheduling, time, I/O, randomness, allocation or crash point for a simulated schedule or fault to act on, so seeded search over schedules and faults would degenerate into plain input fuzzing, another technique.",
}
TODO = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or i in TODO:
        na.append({"property": i, "reason": NA.get(i) or TODO[i]}); continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults, exact replay)",
        "level": "exploration",
        "level_note": "Seeded random search over interleavings, inputs and injected faults of the real, unmodified code inside a single-process simulator; every run is judged by an executable model or history check and each violation is replayed and minimised. Sampling, not proof; the simulated operating system (threads, clock, shared memory, file system, random device, allocator) and sequentially consistent memory are trusted.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are link-time (system calls renamed in the object files with objcopy) and compiler instrumentation (-fsanitize=thread call-outs served by the simulator). Replay: python3 tools/check.py --replay FILE -v"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
