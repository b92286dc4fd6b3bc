"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/results.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
res = json.loads((root / "tools/seed_results.json").read_text()) if (root / "tools/seed_results.json").exists() else {}
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {m['needs']} | {res.get(d.name, m['property'])} |")
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", t, flags=re.S)
p.write_text(t)
