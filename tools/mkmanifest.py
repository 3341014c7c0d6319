#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
NA = {
 "C26": "A compile-time property of a procedural macro: it has no execution to schedule and no environment to inject faults into.",
}
NOTE = "Seeded search over interleavings and faults of the real crate in one process; a pass means no violation among the runs counted in the evidence file. Assumes sequentially consistent memory, and that the simulated locks, event-listener and std facade behave like the originals."
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, history checks and a lock-step reference model",
        "level": "exploration",
        "level_note": NOTE,
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "cfg(xtra_sim)",
  "enable": "RUSTFLAGS='--cfg xtra_sim', with the spin and event-listener crates patched to /verif/sim (harness/Cargo.toml): std inside xtra then resolves to the simulated facade",
  "source_commits": ["9ecca85"],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "DESIGN.md describes the simulator, the oracles, the defects found (known-findings.txt) and the sensitivity tests.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
