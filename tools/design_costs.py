#!/usr/bin/env python3
"""Fills the cost cells of DESIGN.md from evidence of full quick runs: design_costs.py EVIDENCE_DIR..."""
import json, os, re, sys

def human(n):
    return f"{n / 1e6:.1f}".rstrip("0").rstrip(".") + " M" if n >= 100_000 else str(n)

found = {}
for d in sys.argv[1:]:
    for f in sorted(os.listdir(d)):
        e = json.load(open(os.path.join(d, f)))
        if e["tier"] != "quick" or e["violations"]:
            continue  # a run cut short by a planted bug says nothing about cost
        found[e["property"]] = (e["coverage"]["evaluations"], e["wall_s"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md")
lines = open(path).read().split("\n")
for i, line in enumerate(lines):
    if line.startswith("## Defects"):
        break  # the tables below say nothing about cost
    m = re.match(r"\| ([ARS]\d\d) \|", line)
    if m:
        if m[1] not in found:
            print("no evidence:", m[1]); continue
        n, s = found[m[1]]
        head = line[: line.rstrip(" |").rindex("|")]
        lines[i] = f"{head}| {human(n)}, {max(1, round(s))} s |"
open(path, "w").write("\n".join(lines))
for k in "PCG":
    print(k, {p: (n, round(s)) for p, (n, s) in found.items() if p[0] == k})
