"""Write the table of the planted bugs (seeded/) into DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"]))
cell = lambda s: " ".join(s.split()).replace("|", "\\|")
text = ["| caught by | bug | needs | breaks |", "|---|---|---|---|"]
for p in sorted(rows):
    for n, a, b in rows[p]:
        text.append("| %s | %s | %s | %s |" % (p, n[4:], cell(a), cell(b)))
path = root + "/DESIGN.md"
doc = open(path).read()
a, b = "<!-- bugs -->\n", "<!-- end of bugs -->"
i, j = doc.index(a) + len(a), doc.index(b)
open(path, "w").write(doc[:i] + "\n".join(text) + "\n" + doc[j:])
