#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).parent.parent
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} |")
p = V / "DESIGN.md"; s = p.read_text()
s = re.sub(r"(\| id \| needs \|\n\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
p.write_text(s)
