"""C06: hash, line count and language describe the source that was parsed."""
import hashlib
import gen, xmlu
from vrun import Case, q, unq

RULE = ("random sources in several encodings over every channel, hashing switched on and off, languages from the unit, the archive or a random history of "
        "extension registrations and odd file names; hash compared with hashlib's SHA-1 of the bytes, lines counted in the decoded text, language with a model "
        "of the documented resolution, everything again after writing and reading; non-trivial: successful parse, counted as distinct (bytes, language source)")
DEF = {"c": "C", "h": "C", "i": "C", "cpp": "C++", "CPP": "C++", "cp": "C++", "hpp": "C++", "cxx": "C++", "hxx": "C++", "cc": "C++", "hh": "C++", "c++": "C++", "h++": "C++", "C": "C++", "H": "C++",
       "tcc": "C++", "ii": "C++", "java": "Java", "aj": "Java", "cs": "C#"}
EXTS = list(DEF) + ["m", "mm", "txt", "xyz", "", "c ", "Java", "cpp2", "\u00e9"]
STEMS = ["a", "dir.cpp/a", "a.b", ".", "", "a.cpp", "\u00e9", "a b", "x.tar"]
CODECS = [("UTF-8", "utf-8"), ("UTF-8", "utf-8"), ("ISO-8859-1", "latin-1"), ("UTF-16", "utf-16"), ("UTF-32", "utf-32"), (None, "latin-1")]


def lines_of(t):
    t = xmlu.norm(t)
    return t.count("\n") + (1 if t and not t.endswith("\n") else 0)


def language_of(reg, name):
    if name.endswith(".gz") and len(name) > 3:
        name = name[:-3]
    if "." not in name:
        return None
    e = name.rsplit(".", 1)[1]
    return reg.get(e)


def make(r, i, ctx):
    c = Case("c" + i, leak=r.random() < .03, units=[], checks=[])
    M = c.meta
    c.add("acreate a0")
    M["hash"] = r.random() < .75
    if not M["hash"]:
        c.add("archive_disable_hash a0")
    elif r.random() < .3:
        c.add("archive_disable_hash a0").add("archive_enable_hash a0")
    alang = r.choice([None, None, None] + gen.LANGS)
    if alang:
        c.add("archive_set_language a0", q(alang))
    reg = dict(DEF)
    store = r.random() < .3
    if store:
        c.add("archive_enable_option a0 64")

    def register():
        e, l = r.choice(EXTS), r.choice(gen.LANGS)
        if r.random() < .15:
            l = r.choice(["Foo", "", "c", "java", "CPP"])
        M["checks"].append(("register", len(c.lines), l in gen.LANGS, (e, l)))
        c.add("archive_register_file_extension a0", q(e), q(l))
        if l in gen.LANGS:
            reg[e] = l

    for _ in range(r.choice([0, 0, 1, 2, 5])):
        register()
    for _ in range(r.randint(0, 3)):
        n = r.choice(STEMS) + "." + r.choice(EXTS) + r.choice(["", "", "", ".gz"])
        M["checks"].append(("extension", len(c.lines), language_of(reg, n), n))
        c.add("archive_check_extension a0", q(n))
    enc, codec = r.choice(CODECS)
    if enc:
        c.add("archive_set_src_encoding a0", q(enc))
    c.add("wopen a0 mem m0")
    n = r.choice([1, 1, 2, 3])
    for k in range(n):
        if r.random() < .2:
            register()
        u = dict(k=k)
        lang = r.choice(gen.LANGS)
        t = gen.anytext(r, lang)
        while len(t) > 9000:
            t = gen.anytext(r, lang)
        if r.random() < .04:
            t = r.choice(["", "\n", "\n\n", "a", "a\r", "\r\n\r", "\r\r\n"])
        t = t.lstrip("\ufeff")
        if codec == "latin-1":
            t = gen.latin1(t)
        t = t.encode(codec, "replace").decode(codec)
        raw = t.encode(codec)
        if codec == "utf-8" and r.random() < .1:
            raw = b"\xef\xbb\xbf" + raw
        u.update(text=t, raw=raw, set=None)
        c.add("ucreate u%d a0" % k)
        if r.random() < .5:
            u["set"] = r.choice(gen.LANGS)
            c.add("unit_set_language u%d" % k, q(u["set"]))
        meta = {}
        for f in ("filename", "version", "timestamp"):
            if r.random() < .4:
                meta[f] = r.choice(["a.java", "b c.cpp", "1.0", "<&>\"'", "\u00e9", "Mon Jan 1", "x" * 300])
                c.add("unit_set_%s u%d" % (f, k), q(meta[f]))
        u["meta"] = meta
        name = None
        kind = r.choice(["mem", "mem", "name", "name", "name", "FILE", "fd", "pipe", "io"])
        if kind == "name":
            name = r.choice(["s%d.%s" % (k, r.choice(EXTS)), "x.y.%s" % r.choice(EXTS), "noext", "s%d.%s" % (k, r.choice(list(DEF)))]) + r.choice(["", "", "", ".gz"])
            name = "z" + name
            # a compressed file is read as it is
            c.add("put", q(name), q(raw))
        u["kind"] = kind
        u["lang"] = u["set"] or alang or (language_of(reg, name) if name else None)
        u["name"] = name
        u["at"] = len(c.lines)
        if kind == "name":
            c.add("parse u%d name %s" % (k, q(name)))
        else:
            c.add("parse u%d %s %s %s" % (k, kind, q(raw), "c=%d,%d" % (r.randint(1, 9), r.randint(1, 3000)) if kind in ("io", "pipe") else ""))
        c.add("unit_get_hash u%d" % k).add("unit_get_loc u%d" % k).add("unit_get_language u%d" % k).add("unit_get_srcml u%d" % k)
        for f in ("filename", "version", "timestamp"):
            c.add("unit_get_%s u%d" % (f, k))
        c.add("archive_write_unit a0 u%d" % k)
        if name:
            c.add("rm", q(name))
        M["units"].append(u)
    c.add("archive_close a0").add("acreate a1").add("ropen a1 mem m0")
    M["back"] = len(c.lines)
    for k in range(n):
        c.add("read u%d a1" % (10 + k))
        for f in ("hash", "loc", "language", "filename", "version", "timestamp"):
            c.add("unit_get_%s u%d" % (f, 10 + k))
    return c


def makeread(r, i, ctx):
    """documents that are only read: the lines of code are those of the text, however the text is written"""
    c = Case("d%s" % i)
    units = []
    for _ in range(r.choice([1, 1, 2, 3])):
        body, text = [], []
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            t = "".join(r.choice(["a", "b = 1;", "\n", "\n\n", " ", "<", "&", "é"]) for _ in range(r.choice([1, 2, 4, 30])))
            k = r.random()
            if k < .35:
                body.append("<![CDATA[%s]]>" % t)
            elif k < .45:
                body.append("<!--%s--><?p %s?>" % (t, t))
                t = ""
            elif k < .55:
                body.append("".join("&#%d;" % ord(ch) for ch in t))
            else:
                body.append(t.replace("&", "&amp;").replace("<", "&lt;"))
            text.append(t)
            if r.random() < .4:
                body[-1] = "<expr\n>%s</expr>" % body[-1]
        units.append((r.choice(["", "1" * 40]), "".join(body), "".join(text)))
    solitary = len(units) == 1 and r.random() < .5
    us = "\n\n".join('<unit%s revision="1.0.0" language="C"%s>%s</unit>' % (NS if solitary else "", ' hash="%s"' % h if h else "", b) for h, b, _ in units)
    d = us if solitary else '<unit%s revision="1.0.0">\n\n%s\n\n</unit>' % (NS, us)
    c.add("acreate a0").add("ropen", "a0", r.choice(["mem", "file"]), q(d))
    for k in range(len(units)):
        c.add("read", "u%d" % k, "a0").add("unit_get_loc", "u%d" % k).add("unit_get_hash", "u%d" % k)
    c.add("afree a0")
    c.meta.update(units=units, doc=d)
    return c


NS = ' xmlns="http://www.srcML.org/srcML/src"'


def judgeread(ctx, c, x):
    if ctx.crash(c, x):
        return
    for k, (h, _, t) in enumerate(c.meta["units"]):
        loc, hh = x.lines[2 + 3 * k + 1], x.lines[2 + 3 * k + 2]
        if loc != str(lines_of(t)):
            return ctx.violation("loc-read", "unit %d of a document has LOC %s, its text %r has %d lines; %s" % (k, loc, t[-200:], lines_of(t), c.meta["doc"][:800]), [c])
        if (unq(hh).decode() if hh != "~" else "") != h:
            return ctx.violation("hash-read", "unit %d has hash %r, the document says %r" % (k, hh, h), [c])
    ctx.tally("documents_read")
    ctx.seen(c.meta["doc"], any(u[2] for u in c.meta["units"]))


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines

    def bad(kind, what):
        ctx.violation(kind, what, [c])

    for kind, at, exp, what in M["checks"]:
        if kind == "register":
            if (L[at] == "0") != exp:
                return bad("register-status", "registering %r returned %s" % (what, L[at]))
        else:
            g = unq(L[at])
            if (g.decode() if g else None) != exp:
                return bad("check-extension", "%r is %s, registered %s" % (what, g, exp))
            ctx.seen(("ext", what, exp))
    alive = []
    for u in M["units"]:
        a = u["at"]
        st = L[a].split(" ")[0]
        tag = "unit %d (%s, name %r, set %r): " % (u["k"], u["kind"], u["name"], u["set"])
        if u["lang"] is None:
            if st != "5" and st == "0":
                return bad("unset-language", tag + "no language known, but the parse succeeded as %s" % L[a + 3])
            if L[a + 4] != "~" or L[a + 8] == "0":
                return bad("unit-without-language", tag + "a unit was produced: %s" % L[a + 4][:200])
            u["status"] = st
            ctx.tally("no_language")
            continue
        if st != "0":
            return bad("status", tag + "parse as %s returned %s" % (u["lang"], L[a]))
        h = unq(L[a + 1])
        exp = hashlib.sha1(u["raw"]).hexdigest().encode() if M["hash"] else None
        if h != exp:
            return bad("hash", tag + "hash %r, SHA-1 of the %d bytes is %r" % (h, len(u["raw"]), exp))
        if L[a + 2] != str(lines_of(u["text"])):
            return bad("loc", tag + "LOC %s, lines %d in %r" % (L[a + 2], lines_of(u["text"]), u["text"][-200:]))
        try:
            root = xmlu.parse(b"<?xml version='1.0' encoding='UTF-8'?>" + (unq(L[a + 4]) or b"")).root
        except xmlu.XmlError as e:
            return bad("not-well-formed", tag + str(e))
        if root.get("language") != u["lang"]:
            return bad("language", tag + "parsed as %r, expected %r" % (root.get("language"), u["lang"]))
        g = unq(L[a + 3])
        if (g is None and u["set"]) or (g is not None and g.decode() != u["lang"]):
            return bad("language-getter", tag + "getter %r, expected %r" % (g, u["lang"]))
        if root.get("hash") != (exp.decode() if exp else None):
            return bad("hash-attribute", tag + "%r" % root.get("hash"))
        for j, f in enumerate(("filename", "version", "timestamp")):
            g = unq(L[a + 5 + j])
            if (g.decode() if g is not None else None) != u["meta"].get(f):
                return bad("metadata", tag + "%s is %r, set %r" % (f, g, u["meta"].get(f)))
        if L[a + 8] != "0":
            return bad("write", tag + "write returned " + L[a + 8])
        alive.append(u)
        ctx.seen((u["raw"], u["lang"], u["kind"], bool(u["set"]), u["name"]))
        ctx.tally("language_from_" + ("unit" if u["set"] else "archive" if u["name"] is None or L[0] is None else "file_name" if u["kind"] == "name" else "archive"))
    b = M["back"]
    for j in range(len(M["units"])):
        g = L[b + 7 * j:b + 7 * j + 7]
        if not alive:
            break       # an archive without units cannot be told from an empty solitary unit
        if j >= len(alive):
            if g[0] != "0":
                return bad("extra-unit", "unit %d read, %d written" % (j, len(alive)))
            continue
        u = alive[j]
        exp = [hashlib.sha1(u["raw"]).hexdigest() if M["hash"] else None, str(lines_of(u["text"])), u["lang"]] + [u["meta"].get(f) for f in ("filename", "version", "timestamp")]
        got = [unq(v).decode() if v != "~" and v.startswith("'") else None if v == "~" else v for v in g[1:]]
        if got != exp:
            k = [k for k in range(6) if got[k] != exp[k]][0]
            return bad("read-back-" + ("hash", "loc", "language", "filename", "version", "timestamp")[k], "unit %d: %r read back, expected %r; text %r" % (j, got[k], exp[k], u["text"][-100:]))
        ctx.tally("read_back")
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "allocated bytes grow with every repetition: %r" % x.alloc)
    if alive:
        ctx.sample({"bytes": len(alive[0]["raw"]), "language": alive[0]["lang"], "channel": alive[0]["kind"], "name": alive[0]["name"]})


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(3000, 60000), makeread, judgeread, tag="d")
    ctx.fan(ctx.n(16000, 500000), make, judge)
