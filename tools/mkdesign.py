"""Fill the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d.get('caught_by', d['property'])} | {d['what_it_breaks']} | {d['needs']} |")
text = (root / "DESIGN.md").read_text()
head = text[:text.index("## Planted changes")]
(root / "DESIGN.md").write_text(head + f"""## Planted changes (`seeded/`)

{len(rows)} changes that build and pass the stable tests, each with a demonstration.
The check named is the one of the broken property; it catches the change in its
quick tier unless the row says otherwise.

| change | caught by | what it breaks | what it needs |
|----|----|----|----|
""" + "\n".join(rows) + "\n")
