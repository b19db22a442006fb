"""Write the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", name, "meta.json"), encoding="utf-8") as fh:
        meta = json.load(fh)
    rows.append("| %s | %s | %s |" % (name, meta["property"], meta["needs"]))
path = os.path.join(HERE, "DESIGN.md")
with open(path, encoding="utf-8") as fh:
    text = fh.read()
mark = "| bug | caught by | needs |\n|---|---|---|\n"
head = text[:text.index(mark) + len(mark)]
with open(path, "w", encoding="utf-8") as fh:
    fh.write(head + "\n".join(rows) + "\n")
