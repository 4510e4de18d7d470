#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md (everything after the heading's paragraph)"""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
s = (V / "DESIGN.md").read_text()
head = s[:s.index("## Planted bugs")]
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
(V / "DESIGN.md").write_text(head + """## Planted bugs

Each was written from a property's statement, confirmed to build, to pass the
stable tests and to fail its demonstration, and then offered to the quick check
of its property. All are caught by it. Two of them (b27, b30) were missed at
first and led to instants very close to breakpoints (`gen_times`) and to zero
weights and empty weight lists in C12.

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
