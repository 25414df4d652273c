"""Fill the table of planted bugs in DESIGN.md."""
import json, re, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
rows = ["<!-- bugs -->", "| bug | caught by | needs |", "|----|----|----|"]
for d in sorted((here / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
rows.append("<!-- end -->")
f = here / "DESIGN.md"
t = f.read_text()
t = re.sub(r"BUGTABLE|<!-- bugs -->.*?<!-- end -->", lambda _: "\n".join(rows), t, flags=re.S)
f.write_text(t)
