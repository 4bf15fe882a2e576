#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
SEQ = "stateless model checking of the real code: every operation sequence within the bounds, compared step by step with a reference model"
INP = "bounded-exhaustive model checking of the real code: every input and layout within the bounds against a reference model"
FLT = "stateless model checking with an exhaustive fault injector: every answer of every system call within the fault budget"
T = {
    "C01": SEQ, "C02": SEQ + "; every text and gap layout", "C03": SEQ, "C04": SEQ, "C05": SEQ + ", with saves, reloads and outside changes",
    "C06": INP + ", through real files", "C07": FLT, "C08": SEQ, "C09": SEQ + "; breadth-first closure over cursor states", "C10": SEQ, "C11": SEQ + " and a callback monitor",
    "C12": INP, "C13": INP, "C14": INP + " and an independent run of the syntax engine", "C15": INP + ", with failures at every line",
    "C16": SEQ, "C17": SEQ, "C18": SEQ + ", on real files and links", "C19": INP + " and operation sequences", "C20": INP, "C21": SEQ,
    "C22": INP + " on a ladder of sizes around every power of two",
    "C23": FLT + "; every set of folder entries and every sequence of creations within the bounds",
}
N = {
    "C07": "Complete for the enumerated contents, buffer states and up to 3 (thorough: 4) injected answers per operation at the C library boundary; trusts that the library reaches the kernel through the interposed functions. Failures of fstat (by number), lseek and close are not injected.",
    "C14": "Complete within the stated texts; scopes are compared with an independent run of the pinned syntect engine, which is trusted, as is unicode-segmentation.",
    "C22": "Sizes are enumerated on a ladder (around every power of two, every small size), not every size.",
}
D = "Every execution within the bounds listed in the evidence file (alphabet, depth, texts) of the real, unmodified crate; nothing is said about longer sequences or other characters. Trusts the reference model in mc/src/model.rs, and unicode-segmentation for what a grapheme cluster is."
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": T[p["id"]],
            "level": "model_checking",
            "level_note": N.get(p["id"], D),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: the checks use the crate's public API and interpose on C library calls. Replay a counterexample with mc/target/release/mc replay <file>. Findings: known_findings.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
