#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and lib/checks.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(H + "/lib/checks.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
    "C23": "Compression ratio between levels is a pure function of the input with no exact specification, and throughput is a property of the real machine: simulated time cannot measure it, and neither schedules nor faults enter it.",
    "C24": "Pure functions of one integer: no concurrency, time, I/O, randomness or second party is involved, so there is nothing for a simulator to schedule or fault. (The library's own use of them is exercised by every other check.)",
}
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py t t_sse2 t_sse4 t_avx2 ref",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the simulator takes control at link level (allocation and block memory functions of the library object are renamed, compiler instrumentation callbacks, pthread, clock, cpuid and zstd entry points are interposed), see DESIGN.md. Replay: python3 check.py --replay FILE.",
}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences" if not c.get("technique") else c["technique"],
            "level": "exploration",
            "level_note": "Seeded search, not exhaustive. " + c["rule"][0].upper() + c["rule"][1:] + ". Real library code under a simulated scheduler, clock and allocator; oracle: " + c.get("oracle", "see DESIGN.md") + ". Trusts libzstd, libstdc++, the compiler and sequential consistency between scheduling points (weak-memory effects are caught as data races by happens-before).",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
