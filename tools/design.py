"""fill the table of planted changes of DESIGN.md from seeded/*/meta.json"""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['what_it_breaks']} |")
p = root / "DESIGN.md"
s = p.read_text()
import re
a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s.replace("@@SEEDS@@", f"{a}\n{b}")
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
p.write_text(s)
