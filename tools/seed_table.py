#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/seed_results.json."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
res = json.loads((V / "tools/seed_results.json").read_text())
rows = ["| Bug | Property | What it breaks | Caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = res[d.name]
    by = ", ".join(r["by"]) or "nothing"
    if r.get("missed"):
        by += " (missed at first)"
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {by} |")
f = V / "DESIGN.md"
s = f.read_text()
s = re.sub(r"(<!-- seeds -->\n).*?(\n<!-- /seeds -->)", lambda x: x[1] + "\n".join(rows) + x[2], s, flags=re.S)
f.write_text(s)
