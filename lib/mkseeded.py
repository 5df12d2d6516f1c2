"""The table of planted bugs in DESIGN.md (between the markers), from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(V + "/lib/seeded_notes.json"))
rows = ["| planted bug | property | what breaks; what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append("| %s | %s | %s; needs: %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), NOTE.get(i, m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
