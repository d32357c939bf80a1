#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = (
    "Seeded search over histories, interleavings, storage layouts and fault sequences of the real library, "
    "judged against a reference model, an item ledger and a checking allocator; what no seed produced is not covered. "
)
MORE = {
    "C04": "Item callbacks re-enter the library at every point the library calls out. ",
    "C08": "Streams are corrupted in twelve ways at seeded positions. ",
    "C10": "The sink fails or panics after every possible number of bytes. ",
    "C12": "Clients are real threads of which a seeded scheduler runs one at a time, with hand-over inside item callbacks. ",
    "C13": "Each history runs three times: mixed, all scattered, all contiguous storage; the logs must be equal. ",
    "C16": "The tuples are a generated catalogue of 180 shapes, because a tuple is fixed at compile time. ",
    "C14": "Each seed runs in both builds; the logs must be equal. ",
}
TECH = "deterministic simulation with fault injection: seeded scheduler, reference model, ledger, checking allocator"
checks = []
for i in range(1, 17):
    p = "C%02d" % i
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": TECH,
        "level": "exploration",
        "level_note": NOTE + MORE.get(p, "") + "Trusts the model in sim/src, rustc, and the client's obedience to the contracts of unsafe functions.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [
    ],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
