#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
CLAIMED = open(f"{HERE}/tools/claimed.txt").read().split()
NOTES = {
 "A": "property-based testing: exhaustive sweeps of single fields and byte pairs plus weighted random inputs, against an independent model",
 "P": "model-based property testing: generated histories of calls against the real pallet code, compared step by step with an independent ledger model, shrunk on failure",
 "C": "model-based property testing: generated histories of calls against the real pallet code, compared step by step with an independent model, shrunk on failure",
 "G": "model-based property testing: generated histories of calls against the real pallet code, compared step by step with an independent model, shrunk on failure",
 "R": "property-based testing of the real runtime configuration code with generated inputs against an independent model",
 "S": "property-based testing of the real tool, run as a program, and of the runtime built for the other network, with generated inputs against an independent model",
}
LEVEL = {
 "A": "generated inputs and bounded sweeps; 2^64 identifiers are sampled, not enumerated",
 "P": "generated histories of bounded length over a handful of accounts, assets and payments; FRAME is replaced by a compatible miniature (see DESIGN.md)",
 "C": "generated histories of bounded length over a handful of communities, accounts and polls; FRAME is replaced by a compatible miniature (see DESIGN.md)",
 "G": "generated histories of bounded length; FRAME is replaced by a compatible miniature (see DESIGN.md)",
 "R": "generated inputs; the runtime files under test are compiled against a compatible miniature of FRAME and XCM (see DESIGN.md)",
 "S": "generated inputs; the sources are compiled against a compatible miniature of FRAME and of the chain-spec crates (see DESIGN.md)",
}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": NOTES[i[0]],
                       "level": "exploration", "level_note": LEVEL[i[0]]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile the sources in /repo unchanged, through manifests under /verif/derived."}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
