#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, the registry (checks.py), properties.jsonl, the texts below and the planted bugs."""
import json, os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
import checks
T = os.path.join(V, "tools")
texts = {}
cur = None
for line in open(os.path.join(T, "design_props.md")):
    if line.startswith("@"):
        cur = line[1:].strip(); texts[cur] = []
    else:
        texts[cur].append(line)
out = open(os.path.join(T, "design_head.md")).read()
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); c = checks.CHECKS[p["id"]]
    out += f"### {p['id']} — {p['title']}\n{''.join(texts[p['id']]).strip()}\n\n*Bounds.* {c['bounds']}\n\n"
out += open(os.path.join(T, "design_tail.md")).read()
out += subprocess.run([sys.executable, os.path.join(T, "seeded_table.py")], capture_output=True, text=True, check=True).stdout
out += "\n" + open(os.path.join(T, "design_end.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)
print(len(out.splitlines()), "lines")
