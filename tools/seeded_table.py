"""Fill the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
missed = {"b21_kwonly": "options part added (keyword-only and positional options of all value types)",
          "b22_expclip": "sizes (20, 1) added",
          "b06_reshape": "all field shapes up to three dimensions",
          "b01_equil_absent": "equilibration error with components absent in some phases"}
extra = pathlib.Path(root / "tools" / "missed.json")
if extra.exists():
    missed.update(json.loads(extra.read_text()))
rows = ["| change | needs | caught by (quick) | note |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    note = f"first missed; {missed[d.name]}" if d.name in missed else ""
    rows.append(f"| `{d.name}` | {m['needs']} | {m['property']} | {note} |")
f = root / "DESIGN.md"
t = f.read_text()
body = "<!-- seeded:begin -->\n" + "\n".join(rows) + "\n<!-- seeded:end -->"
if "@SEEDED@" in t:
    t = t.replace("@SEEDED@", body)
else:
    t = re.sub(r"<!-- seeded:begin -->.*<!-- seeded:end -->", lambda _: body, t, flags=re.S)
f.write_text(t)
