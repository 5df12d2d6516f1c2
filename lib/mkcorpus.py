"""One-off: collects the source texts of the project's parser test units (and its own sources)
as seed material for the generators.  The result is committed; checks do not read the tests."""
import glob, json, gzip, re, html, xml.etree.ElementTree as ET
out = []
seen = set()
for f in sorted(glob.glob("/repo/test/parser/testsuite/*.xml")):
    try:
        t = ET.parse(f).getroot()
    except Exception as e:
        print(f, e); continue
    L = t.get("language")
    for u in t:
        if not u.tag.endswith("}unit"): continue
        lang = u.get("language") or L
        def tx(e):
            r = e.text or ""
            for c in e:
                if c.tag.endswith("}escape"):
                    r += chr(int(c.get("char"), 16))
                r += tx(c) + (c.tail or "")
            return r
        s = tx(u)
        k = (lang, s)
        if k in seen or len(s) > 6000: continue
        seen.add(k)
        out.append([lang, f.split("/")[-1].split(".")[0], s])
from collections import Counter
print(len(out), Counter(o[0] for o in out), sum(len(o[2]) for o in out))
with gzip.GzipFile("/verif/corpus/units.json.gz", "wb", mtime=0) as g:
    g.write(json.dumps(out).encode())
