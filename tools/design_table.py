"""Table of planted bugs for DESIGN.md: python3 tools/design_table.py [RESULTS], RESULTS has lines of plant.py --recheck"""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
found = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        part = line.split()
        if len(part) >= 3 and part[1] in ("CAUGHT", "MISSED"):
            found[part[0]] = part[1].lower() + " by " + part[2] if part[1] == "CAUGHT" else "missed"
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for d in sorted((VERIF / "seeded").iterdir()):
    meta = json.load(open(d / "meta.json"))
    rows.append(f"| {d.name} | {meta['property']} | {' '.join(meta['needs'].split())} | {found.get(d.name, '')} |")
path = VERIF / "DESIGN.md"
text = path.read_text()
begin, end = "<!-- planted bugs -->", "<!-- end of planted bugs -->"
head, tail = text.split(begin)[0], text.split(end)[1]
path.write_text(head + begin + "\n" + "\n".join(rows) + "\n" + end + tail)
