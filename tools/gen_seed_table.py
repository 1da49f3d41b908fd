#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = "| seed | caught by | breaks | shows only with |\n|--|--|--|--|\n" + "\n".join(rows) + "\n"
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
p.write_text(s)
