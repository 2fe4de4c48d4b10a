#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
note = {
 "C17": "Seeded search; the plain build with guarded heap and a second build of the same tree under AddressSanitizer and UBSan. ",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T,
        "level": "exploration",
        "level_note": note.get(i, "Seeded search over whole simulated histories of the unmodified programs; ") + "every history is repeatable from its seed and is judged against an independent reference model. It trusts the simulated kernel, libcurl and servers to behave like the interfaces they stand for, and says nothing about histories that were not drawn.",
    })
m = {"version": 1, "setup_cmd": "python3 build.py fast asan", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the programs are compiled unmodified and their libc, libcurl, AF_ALG, zstd and libcrypto references are renamed to the simulator's functions at object level (sim/redirect.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
