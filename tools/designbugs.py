"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, re
from pathlib import Path
root = Path(__file__).parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    needs = " ".join(d["needs"].split()).rstrip(".").replace("|", "\\|")
    rows.append(f"| {m.parent.name} | {d['property']} | {needs} |")
p = root / "DESIGN.md"
s = p.read_text()
head, sep, _ = s.partition("| bug | caught by | needs |\n|-|-|-|\n")
assert sep
p.write_text(head + sep + "\n".join(rows) + "\n")
