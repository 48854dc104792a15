#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((root / "tools/caught.json").read_text())
rows = ["| bug | property | what it breaks | needs | own check | also reported by |", "|---|---|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = caught.get(d.name)
    own = "?" if c is None else "caught" if m["property"] in c else "missed"
    c = c or []
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d.name} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {own} | {', '.join(x for x in c if x != m['property'])} |")
p = root / "DESIGN.md"
s = p.read_text()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", table) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: table, s, flags=re.S)
p.write_text(s)
