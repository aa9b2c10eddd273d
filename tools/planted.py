"""Rewrite section 6 of DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

top = Path(__file__).resolve().parent.parent
late = {"c03-rule-left": "added half-way failures inside `clusters` on shared groups", "c12-masks-win": "readers offering both flags and masks",
        "c01-windows": "distances between windows of one set", "c02-colour-taken": "records whose partons share few colours",
        "c18-truncated": "operands of other types and beyond the column's range", "c19-stored-first": "refusals on groups in use"}
try:
    late.update(json.loads((top / "tools" / "late.json").read_text()))
except OSError:
    pass
out = ["## 6. Planted bugs\n",
       "Each is a patch in `seeded/` which compiles, passes the stable tests, and is written",
       "from a property's text.  `tools/tryout.sh ID` confirms all of that and runs the check of",
       "its property, which catches every one of them; *late* ones were missed at first, and",
       "what was added then is said.\n",
       "| bug | caught by | needs | late |", "| --- | --- | --- | --- |"]
for d in sorted((top / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {late.get(d.name, '')} |")
p = top / "DESIGN.md"
s = p.read_text().split("## 6. Planted bugs")[0].rstrip()
p.write_text(s + "\n\n" + "\n".join(out) + "\n")
