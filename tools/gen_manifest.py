#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "online reference-model monitor (double-double oracle with forward error bounds)"
CHECKS = {
 "C01": (M, ""),
 "C02": (M, ""),
 "C03": (M, ""),
 "C04": (M, ""),
 "C05": (M, ""),
 "C06": (M, ""),
 "C07": (M, ""),
 "C08": (M, ""),
 "C09": (M, ""),
 "C10": (M, ""),
 "C11": (M, ""),
 "C12": (M, ""),
 "C13": (M, ""),
 "C14": (M, ""),
 "C15": ("online metamorphic monitor (transformed executions compared)", ""),
 "C16": (M, "It closes the loop over projection, back-projection, ray transport and intersection."),
 "C17": (M, ""),
 "C18": ("online roundtrip and corruption monitor over four encodings", ""),
 "C19": ("online differential monitor: every row of a batch against the row alone", ""),
 "C20": ("recorded calls of logging camera models checked against a reference model", ""),
 "C21": ("allocator hook counting heap calls, per feature set; output of a no_std executable checked by the model", ""),
 "C22": ("panic, signal and CPU-time monitors with debug assertions, AddressSanitizer; Miri in the thorough tier", ""),
 "C23": ("recorded single- and multi-threaded histories checked for bit-identical results; ThreadSanitizer; Miri in the thorough tier", ""),
 "C24": ("online reference-model monitor in a wider scalar type, differential monitor between scalar types, and live-value counter of a boxed one", ""),
 "C25": ("online monitors of accessors, equality, clones and Debug output under parameter changes", ""),
 "C26": ("logging, deliberately wrong camera models given to the helper; panics and queries observed", ""),
}
NA = {"C27": "a program that mixes frames does not compile, so there is no execution that a monitor could observe; the type checker decides it"}
BASE = ("Held on the executions observed, counted in the evidence; nothing is said about inputs that were not generated. "
        "Trusts the generators, the double-double model and its error bounds (48 units in the last place times the conditioning), "
        "and the release build of this compiler on x86-64.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": (note + " " + BASE).strip(),
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: everything the properties speak of is observable at the public API. Known findings: known-findings.txt (all fixed).",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
