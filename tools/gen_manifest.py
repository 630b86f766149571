#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
ids = [p["id"] for p in props]
import re
scen = open(d + "/sim/src/scen/mod.rs").read()
have = re.findall(r'^    "(C\d\d)" ', scen, re.M)
NA = {
 "C22": "a pure function from a value to JSON: no schedule, clock, I/O, fault or second party can influence it, so there is nothing to simulate (the envelope of every message that crosses a transport is covered by C01 and C02)",
 "C23": "constructors and accessors are pure functions of their arguments; no concurrency, time, I/O or multi-party behaviour exists for a simulator to control",
 "C24": "error constructors are pure functions of their arguments; no concurrency, time, I/O or multi-party behaviour exists for a simulator to control (the one code that depends on a protocol history, -32002 before initialize, is covered by C04)",
}
note = ("Seeded search, not a proof: it says that no violation was found in the executions explored. The unmodified bsp-server, bsp-types and "
        "crossbeam code runs on real threads whose every interleaving, clock reading and I/O result is decided by the simulator. Assumes "
        "sequential consistency, preemption at intercepted libc calls and heap allocations, and that the simulated kernel behaves like POSIX.")
m = {
 "version": 1,
 "setup_cmd": "cd sim && cargo build --offline --quiet --target-dir \"$PWD/target\"",
 "checks": [
  {"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
   "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": note} for i in ids if i in have],
 "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in have],
 "notes": "No hooks in /repo: the seam is libc itself (the simulator interposes the symbols that std and crossbeam use). './check ID replay FILE' replays a recorded violation.",
}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
