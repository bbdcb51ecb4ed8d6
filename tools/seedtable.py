"""Refresh the table of planted bugs in DESIGN.md (usage: seedtable.py [missed-seed ...])."""
import json
import re
import sys
from pathlib import Path

V = Path(__file__).resolve().parents[1]
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for p in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(p.read_text())
    rows.append(f"| {p.parent.name} | {m['needs']} | {'(missed)' if p.parent.name in sys.argv[1:] else m['property']} |")
t = (V / "DESIGN.md").read_text()
h = "### Planted bugs and the checks that catch them\n"
a, b = t.split(h)
b = b[b.index("\n## "):]
(V / "DESIGN.md").write_text(a + h + "\n" + "\n".join(rows) + "\n" + b)
