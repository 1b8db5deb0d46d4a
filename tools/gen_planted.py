"""Write the table of planted changes in section 5 of DESIGN.md."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    with open(os.path.join(here, "seeded", name, "meta.json")) as f:
        m = json.load(f)
    rows.append((m["property"], name, m["needs"], m["what_it_breaks"]))
text = "| property | change | shows only with | breaks |\n|---|---|---|---|\n"
text += "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
path = os.path.join(here, "DESIGN.md")
with open(path) as f:
    s = f.read()
a, b = "<!-- planted -->", "<!-- end of planted -->"
i, j = s.index(a) + len(a), s.index(b)
with open(path, "w") as f:
    f.write(s[:i] + "\n" + text + s[j:])
