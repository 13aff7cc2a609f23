"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| change | property | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
f = root / "DESIGN.md"
s = f.read_text()
s = re.sub(r"\| change \| property \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s)
f.write_text(s)
