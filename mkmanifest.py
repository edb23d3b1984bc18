#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after editing)."""
import json
T = {
 "P01": "model-based property testing: generated operands + exhaustive small widths vs reference integer model",
 "P02": "property testing with constructed q*d+r operands vs reference model and the defining relation",
 "P03": "property testing over sign combinations and corner magnitudes vs reference model",
 "P04": "property testing of width x value x amount, exhaustive small widths, vs reference model",
 "P05": "property testing of operand pairs and bit positions vs bit-level reference model",
 "P06": "property testing of structured values vs bit-level reference model",
 "P07": "property testing of related pairs vs reference order, equality/hash consistency relations",
 "P08": "property testing of width pairs x values across the storage boundary vs reference model",
 "P09": "property testing of primitives and borderline values vs reference model",
 "P10": "generated valid/mutated strings and values, reference parser/printer, round trips",
 "P11": "round trips through several formats plus mutated encodings, strict acceptor as oracle",
 "P12": "generated bad arguments for every fallible operation, expected error and unchanged-operand oracle",
 "P13": "stateful model-based testing of operation histories with fresh-twin comparison",
 "P14": "stateful fuzzing of operation histories under a guarding allocator, AddressSanitizer and Miri",
 "P15": "property testing under a counting allocator",
 "P16": "property testing with scripted generators: purity relations, per-bit statistics",
 "P17": "differential property testing of wrappers and operators against the untyped methods",
 "P18": "configuration matrix x generated inputs vs reference model",
}
N = {
 "P14": "Search over histories of up to 30 calls with moves between threads; trusts the guard allocator, ASan and Miri (aliasing-model checks off). Thread schedules are the OS's, not enumerated.",
 "P16": "Purity and width relations are exact; lack of bias is decided by fixed-seed bit statistics with thresholds far from chance level.",
 "P18": "All 8 feature combinations x debug assertions on/off are built and searched; one target (x86-64).",
}
D = "Bounded search: generated widths up to a few thousand bits (rarely 70,000), exhaustive for tiny widths, in a build with and one without debug assertions. Trusts the reference model, which is self-checked against u128/i128 at start-up."
checks = []
for l in open("/verif/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py run %s --tier quick" % i,
        "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T[i] + ("" if i in ("P16", "P18") else "; coverage-guided fuzzing (libFuzzer) of the same generators and oracles"), "level": "exploration", "level_note": N.get(i, D)})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public API only. Genuine defects found were repaired by fix: commits, see known_findings.txt. Replay a reported case with: python3 check.py replay <file>."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
