"""C17: a revision extracted from srcDiff is exactly that side of the difference."""
import gen, xmlu
from vrun import Case, q, unq

RULE = ("generated srcDiff documents (nested delete/insert/common regions at any place of the tree, empty regions, regions around whole units, escapes, entities, CDATA, comments and processing instructions that look like "
        "difference markup, other prefixes for srcDiff, prefixes that begin like it, attributes of both revisions) are read and random sequences of revision settings, srcML accesses (whole, outer, inner), unparses and "
        "writes to other archives are compared with an extraction done on the tree in Python; non-trivial: the document has a region, counted as distinct (document, revision, access)")

NAMES = ["expr_stmt", "expr", "name", "block", "if", "condition", "type", "decl", "call", "operator", "literal", "comment", "deleted", "insert", "delete", "common"]
TEXTS = ["a", "int a;\n", " ", "\n", "x = y;", "<", ">", "&", "\"", "a>b", "\u00e9", "\u20ac", "\U0001F600", "</diff:delete>", "<diff:insert>", "'", "//c\n", "\t", "]]>", "x" * 50, "|", "a|b"]
TYPES = ["replace", "change", "whitespace", "convert", "a>b", "/", "<diff:insert>", "'", "\""]


def esc(t, r, attr=False):
    out = []
    for ch in t:
        if ch == "<":
            out.append(r.choice(["&lt;", "&lt;", "&#60;"]))
        elif ch == "&":
            out.append(r.choice(["&amp;", "&amp;", "&#x26;"]))
        elif ch == ">" and not attr and r.random() < .5:
            out.append(">")
        elif ch == ">" and attr and r.random() < .6:
            out.append(">")
        elif ch == ">":
            out.append("&gt;")
        elif attr and ch == "\"":
            out.append("&quot;")
        elif attr and ch in "\t\n":
            out.append("&#%d;" % ord(ch))
        else:
            out.append(ch)
    return "".join(out).replace("]]>", "]]&gt;")


class El:
    def __init__(self, name, attrs, kids, pre="", uri=xmlu.SRC):
        self.name, self.attrs, self.kids, self.pre, self.uri = name, attrs, kids, pre, uri


class Diff:
    def __init__(self, kind, kids, type=None):
        self.kind, self.kids, self.type = kind, kids, type


class Raw:
    """markup without content for the tree: comments and processing instructions; CDATA with its text"""

    def __init__(self, s, t=""):
        self.s, self.t = s, t


class Esc:
    def __init__(self, n):
        self.n = n


def item(r, d, budget):
    budget[0] -= 1
    k = r.random()
    if k < .33 or d > 8 or budget[0] <= 0:
        return r.choice(TEXTS)
    if k < .58:
        at = {}
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            at[r.choice(["type", "a", "format", "b"])] = r.choice(TEXTS)
        pre, uri = "", xmlu.SRC
        if r.random() < .08:
            pre, uri = r.choice([("cpp", xmlu.CPP), ("differ", "http://differ"), ("diff2", "http://diff2")])
        return El(r.choice(NAMES), at, items(r, d + 1, budget), pre, uri)
    if k < .88:
        return Diff(r.choice(["delete", "insert", "common", "delete", "insert"]), items(r, d + 1, budget) if r.random() < .9 else [], r.choice(TYPES) if r.random() < .5 else None)
    if k < .92:
        return Esc(r.choice([1, 2, 0xc, 0xb, 0x1b, 0x7f]))
    k = r.randrange(3)
    if k == 0:
        return Raw(r.choice(["<!-- c -->", "<!--a > b-->", "<!-- > <%s:delete> -->", "<!--</%s:insert>-->", "<!-- ' -->", "<!---->", "<!-- \" -->"]))
    if k == 1:
        return Raw(r.choice(["<?pi?>", "<?pi <%s:delete>?>", "<?pi a > <%s:insert> ?>", "<?pi '?>", "<?pi \"/>?>"]))
    t = r.choice(["t", "<%s:delete>", " > <%s:insert>", "a]]b", "</%s:delete>", "<a b='", ""])
    return Raw("<![CDATA[%s]]>" % t, t)


def items(r, d, budget):
    return [item(r, d, budget) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]


def wrapped(r, s):
    """the tree of real srcML with some of its nodes in regions"""
    def conv(n):
        kids = []
        for k in n.kids:
            v = k if isinstance(k, str) else (Esc(int(k.get("char"), 16)) if xmlu.is_escape(k) else conv(k))
            z = r.random()
            if z < .08:
                v = Diff(r.choice(["delete", "insert", "common"]), [v], r.choice(TYPES[:4]))
            elif z < .1:
                v = Diff("delete", [v], "replace")
                kids.append(v)
                v = Diff("insert", [r.choice(TEXTS)], "replace")
            kids.append(v)
        pre = {xmlu.CPP: "cpp"}.get(n.uri, "")
        return El(n.name, {k[1]: v for k, v in n.attrs.items()}, kids, pre, n.uri)
    e = conv(s)
    return e.kids


def ser(x, r, dp, out):
    if isinstance(x, str):
        out.append(esc(x, r))
    elif isinstance(x, Raw):
        out.append(x.s.replace("%s", dp))
    elif isinstance(x, Esc):
        out.append("<escape char=\"0x%x\"/>" % x.n)
    elif isinstance(x, Diff):
        n = dp + ":" + x.kind
        qu = r.choice("\"\"'")
        at = "" if x.type is None else " type=%s%s%s" % (qu, esc(x.type, r, True).replace("'", "&apos;"), qu)
        if not x.kids and r.random() < .6:
            out.append("<%s%s%s/>" % (n, at, r.choice(["", " "])))
            return
        out.append("<%s%s>" % (n, at))
        for k in x.kids:
            ser(k, r, dp, out)
        out.append("</%s>" % n)
    else:
        n = (x.pre + ":" if x.pre else "") + x.name
        out.append("<" + n + "".join(" %s=\"%s\"" % (k, esc(v, r, True)) for k, v in x.attrs.items()))
        if not x.kids and r.random() < .5:
            out.append("/>")
            return
        out.append(">")
        for k in x.kids:
            ser(k, r, dp, out)
        out.append("</%s>" % n)


def side(kids, rev, mode, dp, out):
    """the nodes of one side; rev None keeps the difference markup"""
    vis = rev is None or mode == "common" or (rev == 0 and mode == "delete") or (rev == 1 and mode == "insert")

    def text(t):
        if out and isinstance(out[-1], str):
            out[-1] += t
        elif t:
            out.append(t)
    for k in kids:
        if isinstance(k, str):
            if vis:
                text(k)
        elif isinstance(k, Raw):
            if vis:
                text(k.t.replace("%s", dp))
        elif isinstance(k, Esc):
            if vis:
                out.append(xmlu.Node(xmlu.SRC, "escape", None, {("", "char"): "0x%x" % k.n}, []))
        elif isinstance(k, Diff):
            if rev is None:
                n = xmlu.Node(xmlu.DIFF, k.kind, None, {} if k.type is None else {("", "type"): k.type}, [])
                side(k.kids, rev, mode, dp, n.kids)
                out.append(n)
            else:
                side(k.kids, rev, k.kind, dp, out)
        elif vis:
            n = xmlu.Node(k.uri, k.name, None, {("", a): v for a, v in k.attrs.items()}, [])
            side(k.kids, rev, mode, dp, n.kids)
            out.append(n)
        else:
            # the element is of the other side; what is common inside of it is not
            side(k.kids, rev, mode, dp, out)


PAIRS = ["a.cpp", "a.cpp|b.cpp", "a.cpp|", "|b.cpp", "|", "x<&>\"|y", "\u00e9|\u20ac", "a|b|c"]


def make(r, i, ctx):
    dp = "diff" if r.random() < .8 else r.choice(["d", "srcdiff", "diff2x", "di", "DIFF"])
    n = r.choice([1, 1, 2, 3])
    solitary = r.random() < .2
    if solitary:
        n = 1
    c = Case("c" + i, leak=r.random() < .04, dp=dp, units=[], st=[], gets=[], seq=[])
    ns = ' xmlns="%s" xmlns:cpp="%s" xmlns:%s="%s" xmlns:differ="http://differ" xmlns:diff2="http://diff2"' % (xmlu.SRC, xmlu.CPP, dp, xmlu.DIFF)
    bodies = []
    for k in range(n):
        real = ctx.meta_units if hasattr(ctx, "meta_units") else None
        kids = items(r, 0, [r.choice([3, 10, 30, 120])])
        if r.random() < .15:
            kids = [Diff(r.choice(["delete", "insert"]), kids)]
        at = {"language": "C++"}
        for a in ("filename", "version", "timestamp", "hash"):
            if r.random() < .4:
                at[a] = r.choice(PAIRS)
        o = []
        for x in kids:
            ser(x, r, dp, o)
        tag = "<unit%s revision=\"1.0.0\"%s" % (ns if solitary else "", "".join(" %s=\"%s\"" % (a, esc(v, r, True)) for a, v in at.items()))
        body = "".join(o)
        bodies.append(tag + ("/>" if not body and r.random() < .5 else ">" + body + "</unit>"))
        c.meta["units"].append((kids, at))
    doc = bodies[0] if solitary else "<unit%s revision=\"1.0.0\">\n\n%s\n\n</unit>" % (ns, "\n\n".join(bodies))
    if r.random() < .5:
        doc = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n" + doc
    c.add("src b0", q(doc)).add("acreate a0")
    enc, codec = r.choice([("UTF-8", "utf-8"), ("UTF-8", "utf-8"), ("UTF-16LE", "utf-16-le"), ("ISO-8859-1", "latin-1")])
    c.meta["codec"] = codec
    c.add("archive_set_src_encoding a0", q(enc))
    rev = [None]

    def setrev(v):
        c.meta["gets"].append((len(c.lines), "set", None, v, rev[0]))
        c.add("archive_set_srcdiff_revision a0 %d" % v)
        if v in (0, 1):
            rev[0] = v

    def getrev():
        c.meta["gets"].append((len(c.lines), "rev", None, None, rev[0]))
        c.add("archive_get_srcdiff_revision a0")
    c.add("ropen a0 %s b0" % r.choice(["mem", "mem", "file", "FILE", "fd", "io"]))
    getrev()
    done = set()
    m = 1
    nout = 0
    eols = {}
    for _ in range(r.choice([4, 10, 25])):
        z = r.random()
        if z < .2:
            setrev(r.choice([0, 1, 0, 1, 0, 1, 2, 3, 99]))
            if r.random() < .3:
                getrev()
            continue
        if len(done) < n and (z < .4 or not done):
            k = len(done)
            c.meta["st"].append((len(c.lines), "1"))
            c.add("%s u%d a0" % (r.choice(["read", "read", "read"]), k))
            done.add(k)
            continue
        k = r.choice(sorted(done))
        if z < .75:
            f = r.choice(["unit_get_srcml", "unit_get_srcml_outer", "unit_get_srcml_inner"])
            c.meta["gets"].append((len(c.lines), f, k, None, rev[0]))
            c.add("%s u%d" % (f, k))
        elif z < .8:
            e = r.choice([0, 1, 2, 3])
            eols[k] = e
            c.add("unit_set_eol u%d %d" % (k, e))
        elif z < .84:
            f = r.choice(["filename", "version", "timestamp", "hash"])
            c.meta["gets"].append((len(c.lines), "attr", k, f, rev[0]))
            c.add("unit_get_%s u%d" % (f, k))
        elif z < .94 and m < 30:
            c.add("unparse u%d mem m%d" % (k, m))
            c.meta["gets"].append((len(c.lines), "source", k, eols.get(k, 0), rev[0]))
            c.add("mem m%d" % m)
            m += 1
        elif nout < 6:
            a = 10 + nout
            sol = r.random() < .3
            c.add("acreate a%d" % a)
            if sol:
                c.add("archive_enable_solitary_unit a%d" % a)
            for p, u in (("differ", "http://differ"), ("diff2", "http://diff2")) + (((dp, xmlu.DIFF),) if rev[0] is None else ()):
                if r.random() < .4:
                    c.add("archive_register_namespace a%d" % a, q(p), q(u))
            c.add("wopen a%d mem m%d" % (a, 40 + nout))
            c.add("archive_write_unit a%d u%d" % (a, k)).add("archive_close a%d" % a)
            c.meta["gets"].append((len(c.lines), "doc", k, sol, rev[0]))
            c.add("mem m%d" % (40 + nout))
            # and what is read back from that
            if r.random() < .5:
                c.add("acreate a%d" % (a + 20)).add("archive_set_src_encoding a%d 'UTF-8" % (a + 20)).add("ropen a%d mem m%d" % (a + 20, 40 + nout)).add("read u%d a%d" % (100 + nout, a + 20))
                c.meta["gets"].append((len(c.lines), "back", k, None, rev[0]))
                c.add("unit_get_srcml u%d" % (100 + nout))
                if rev[0] is not None:
                    c.add("unparse u%d mem m%d" % (100 + nout, 50 + nout))
                    c.meta["gets"].append((len(c.lines), "source8", k, 0, rev[0]))
                    c.add("mem m%d" % (50 + nout))
            nout += 1
    return c


def expect(kids, at, rev, dp, split=False):
    n = xmlu.Node(xmlu.SRC, "unit", None, {}, [])
    for a, v in at.items():
        if split and rev is not None and a != "language" and "|" in v:
            v = v.split("|", 1)[rev]
        n.attrs[("", a)] = v
    side(kids, rev, "common", dp, n.kids)
    return n


def strip(n):
    n.attrs = {k: v for k, v in n.attrs.items() if k != ("", "revision")}
    return n


def judge(ctx, c, x):
    if x.crash:
        return ctx.crash(c, x)
    if not x.done:
        return
    M, L, dp = c.meta, x.lines, c.meta["dp"]

    def bad(kind, what):
        ctx.violation(kind, what, [c])
    if c.leak and x.alloc and min(x.alloc) > 0:
        return bad("leak", "allocated bytes grow with every repetition: %r" % (x.alloc,))
    for k, want in M["st"]:
        if L[k].split()[0] != want:
            return bad("read", "unit of a srcDiff document is not read: %s" % L[k])
    wrap = '<o xmlns="%s" xmlns:cpp="%s" xmlns:%s="%s" xmlns:differ="http://differ" xmlns:diff2="http://diff2">' % (xmlu.SRC, xmlu.CPP, dp, xmlu.DIFF)
    cache = {}

    def exp(k, rev, split=False):
        if (k, rev, split) not in cache:
            cache[(k, rev, split)] = expect(*M["units"][k], rev, dp, split)
        return cache[(k, rev, split)]
    for at, f, k, v, rev in M["gets"]:
        got = L[at]
        if f == "set":
            if (got == "0") != (v in (0, 1)):
                return bad("set", "setting the revision to %d gives %s" % (v, got))
            continue
        if f == "rev":
            if got != str(2 if rev is None else rev):
                return bad("getter", "revision %s is reported as %s" % (rev, got))
            continue
        b = unq(got)
        if b is None and f != "attr" and not f.startswith("source"):
            return bad("missing", "%s of revision %s is null" % (f, rev))
        if f == "attr":
            want = M["units"][k][1].get(v)
            if (b.decode() if b is not None else None) != want:
                return bad("attribute", "%s of the unit is %r instead of %r" % (v, b, want))
            continue
        if f.startswith("source"):
            w = xmlu.text(exp(k, rev))
            e = {0: "\n", 1: "\n", 2: "\r", 3: "\r\n"}[v].replace("\n", "\n")
            w = w.replace("\n", e)
            codec = "utf-8" if f == "source8" else M["codec"]
            want = "".join(ch if can(ch, codec) else "&#%d;" % ord(ch) for ch in w).encode(codec)
            if (b or b"") != want:
                return bad("source", "source of revision %s: %r instead of %r" % (rev, (b or b"")[:500], want[:500]))
            ctx.tally("sources")
            ctx.seen((want, rev, f), bool(M["units"][k][0]))
            continue
        try:
            if f in ("unit_get_srcml", "back"):
                n = xmlu.parse(b).root
            elif f == "doc":
                d = xmlu.parse(b).root
                n = [d] if v else xmlu.units(d)
                if len(n) != 1:
                    return bad("document", "%d units instead of one in the written document: %r" % (len(n), b[:400]))
                if rev is not None and b"xmlns:%s=" % dp.encode() in b:
                    return bad("namespace", "the document of revision %s still declares the difference namespace: %r" % (rev, b[:300]))
                n = n[0]
            else:
                o = xmlu.parse(wrap.encode() + b + b"</o>").root
                n = o.kids[0] if f.endswith("outer") else o
        except xmlu.XmlError as e:
            return bad("xml", "%s of revision %s is not well-formed (%s): %r" % (f, rev, e, b[:500]))
        w = exp(k, rev, f in ("doc", "back"))
        if f.endswith("inner"):
            n.name, n.attrs = "unit", dict(w.attrs)
        if rev is not None:
            for y in n.iter():
                if y.uri == xmlu.DIFF:
                    return bad("markup", "%s of revision %s contains difference markup: %r" % (f, rev, b[:400]))
        a, z = xmlu.canon(strip(n)), xmlu.canon(w)
        if a != z:
            return bad("tree", "%s of revision %s: %s instead of %s" % (f, rev, a[:500], z[:500]))
        ctx.tally("trees")
        ctx.seen((z, rev, f), bool(M["units"][k][0]))
    ctx.sample({"units": len(M["units"]), "accesses": len(M["gets"]), "prefix": dp})


def can(ch, codec):
    try:
        ch.encode(codec)
        return True
    except UnicodeError:
        return False


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(40000, 700000), make, judge)
