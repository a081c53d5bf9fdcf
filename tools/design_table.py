"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']} quick |")
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(path, "w").write(s)
