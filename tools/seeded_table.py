#!/usr/bin/env python3
"""Writes the table of seeded changes at the end of DESIGN.md (run by hand)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
head = open(p).read().split("## Seeded changes")[0]
notes = json.load(open(root + "/tools/seeded_notes.json"))
out = head + """## Seeded changes

Each was written from the property's text and the code, confirmed to build, pass the stable tests and fail its
demonstration, and then run against its property's quick check (seed 1). "Caught" names the check; where it was
missed at first, what was changed is said.

| change | caught by | needs | missed at first |
|---|---|---|---|
"""
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    n = notes.get(i, {})
    out += f"| {i} | {n.get('by', m['property'])} | {m['needs']} | {n.get('was', '')} |\n"
open(p, "w").write(out)
