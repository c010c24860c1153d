#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks")); sys.path.insert(0, os.path.join(HERE, "lib"))
NOTES = {
 "C": "TLC checks Ring.tla exhaustively for small capacities; every transition of the model is replayed on real adapters and seeded histories of real adapters are validated as traces against it; bounded capacities and history lengths",
 "F": "TLC checks Function.tla exhaustively for a few wrappers and callables; model histories are replayed on real wrappers and traces of real wrappers validated; compile-time facts are emitted by TLC and compiled; bounded history depth and a finite set of callable types",
 "V": "Varint.tla is exhaustive for 8-bit types and for short byte strings, boundary values and seeded random values for wider types; every driver result is validated by TLC",
 "M": "LockGuard.tla is checked over all interleavings for small constants; the interleavings are replayed and logs of real threads validated; bounded threads and mutexes",
 "W": "MoveWrapper.tla checked exhaustively for few wrappers; histories replayed and traces validated; bounded",
 "A": "Algebra.tla evaluated exactly by TLC on exhaustive small and seeded random operands; results of the real code, at compile time and run time, must agree; bounded lengths and values",
 "E": "Elementary.tla defines the functions exactly or by series in 28 decimal digits (laws checked by TLC); results of the real functions for every row, at compile time and run time, are validated against it; finite sets of arguments, tolerances per type",
 "P": "programs and sizes are chosen by TLC from the specification; real programs of many units in several configurations, and runs of every part with a counted allocator, are validated as traces; finite sets of orders, configurations and sizes",
 "S": "Filter specification evaluated exactly by TLC (integers, residues modulo a prime, Gaussian integers, big naturals) and compared with the real designs and filters; bounded orders, finite sets of designs",
 "U": "TLC emits the specified facts; they are compiled as static assertions under several language versions and compilers; bounded lengths and packs",
}
TECH = "TLA+ specification checked with TLC, bound by trace validation and replay of model transitions"
def main():
    import importlib
    from run import FAMILY
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        try:
            mod = importlib.import_module(FAMILY[p[0]])
        except (ImportError, KeyError):
            continue
        if p not in mod.CHECKS: continue
        cmd = "python3-vt checks/run.py " + p
        checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd, "technique": TECH,
                       "level": mod.CHECKS[p][0], "level_note": NOTES[p[0]]})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [
        {"property": "N01", "reason": "ulp-level rounding analysis of floating-point code is not expressible in a TLA+ model checked by TLC; S03-S06 bound the error with tolerances instead"}]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks")
main()
