#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: seeded search over "
checks = [
 ("C01", "call splits, interruptions, stalls and schedules of writer and reader; oracle: the values written", "exploration"),
 ("C02", "streams and request/reply sessions against an independent reference peer; oracle: byte equality", "exploration"),
 ("C03", "write faults at every byte position (error, zero write, full disk, crash, failing field); oracle: prefix of the fault-free bytes", "fault_enumeration"),
 ("C04", "streams cut at every byte; oracle: the complete records, then an error", "fault_enumeration"),
 ("C05", "read faults at every byte position; oracle: error, no made-up value, no reads past the failure", "fault_enumeration"),
 ("C06", "fenced reads and conversations over bounded pipes under a simulated scheduler; progress within a step bound", "exploration"),
 ("C07", "append/sync/read/checkpoint/crash histories of a log with torn tails; oracle: exactly-once, in-order model log", "exploration"),
 ("C08", "interleavings of concurrent and nested sessions, at transport calls and between the instructions of the library, with faults; oracle: each session run alone", "exploration"),
 ("C09", "damaged streams read as known types; no panic, abort, livelock or disproportionate memory", "exploration"),
 ("C10", "damaged, spliced, misrouted streams; oracle: independent reference decoder", "exploration"),
 ("C11", "self-describing streams over faulty transports; oracle: identity and re-written bytes", "exploration"),
 ("C12", "damaged descriptions and bodies; no panic, abort, stack overflow, livelock or disproportionate memory", "exploration"),
 ("C13", "relay chains that know only the derived description; oracle: the original values and bytes (types that no description fits are built and compared separately)", "exploration"),
 ("C14", "representation pairs across faulty transports; oracle: reference number and calendar model", "exploration"),
 ("C15", "requests the format cannot carry, placed inside streams; oracle: refusal and readable prefix", "exploration"),
 ("C16", "misrouted, duplicated and outdated bodies at a checking gateway; oracle: independent shape check and readers of the stream", "exploration"),
]
note = {
 "exploration": "Searched, not proved: every run is decided by its seed and checked against an independent oracle; what no run reached is not covered. Trusts the reference codec and the simulator.",
 "fault_enumeration": "For each drawn value or stream every fault position is tried up to a size limit (edges and a sample beyond it); values and kinds are searched by seed. Trusts the reference codec and the simulator.",
}
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "checks": [{
   "property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
   "technique": T + t, "level": l, "level_note": note[l]} for p, t, l in checks],
 "not_applicable": [{"property": "C17", "reason": "Decided inside the compiler: a pure function of the type definition, with no run, schedule, clock, I/O or fault to simulate."}],
 "notes": "No hooks in /repo: the seams are std::io::Read/Write, serde's traits, hashers and the global allocator. Known and fixed findings: known_findings.txt. Replay a violation: ./check --replay FILE.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
