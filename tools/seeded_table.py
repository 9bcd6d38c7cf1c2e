#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (development aid; no check reads /verif/seeded)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in glob.glob(os.path.join(V, "seeded", "*")):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["what_it_breaks"].strip(), m["needs"].strip()))
print("| caught by | change | what it breaks | what it needs |\n|---|---|---|---|")
for p, i, b, n in sorted(rows):
    print(f"| {p} | `{i}` | {b} | {n} |")
