"""Rewrites the table of the seeded bugs in DESIGN.md (caught: from the last runs, tools/caught.json)"""
import json
import re
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
caught = json.loads((VERIF / "tools" / "caught.json").read_text())
rows = []
for meta in sorted((VERIF / "seeded").glob("*/meta.json")):
    d = json.loads(meta.read_text())
    name = meta.parent.name
    rows.append(f"| {name} | {d['property']} | {d['what_it_breaks']} | {caught.get(name, 'not caught')} |")
path = VERIF / "DESIGN.md"
text = re.sub(r"\| bug \| property .*?(?=\n\nEach one)", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows), path.read_text(), flags=re.S)
path.write_text(text)
