"""C08: archive and unit metadata survive writing and reading."""
import gen, xmlu
from vrun import Case, q, unq

RULE = ("random histories of setting (and overwriting, unsetting, cloning) the attributes of several archives and units with hostile values (markup characters, "
        "quotes, references, white space, non-ASCII, long, empty); getters, the document as read by expat, the getters of an archive and units that read it, and the "
        "copy written from them are compared with a model; neighbours must keep their own values; non-trivial: at least one attribute set, counted as distinct model states")
ATOMS = ["a", "b c", "<", ">", "&", "\"", "'", "&amp;", "&#38;", "&lt;", "]]>", "\t", "\n", "\r", "\r\n", " ", "  ", "\u00e9", "\u20ac", "\U0001F600", "\ufeff", "\u2028", "|", ":", "=", "/", "\\", "%", "{0}", "<!--", "-->", "<?", "?", "x" * 40, "\x7f", "\x85", "#", "&&", "%s", " url=", " xmlns=", " x=\""]
URIS = ["http://a.b/c", "urn:x", "http://a.b/c?d=1&e=2", "a'b", "a\"b", "http://a.b/<c>", "\u00e9", "http://www.srcML.org/srcDiff", "x y"]
PREF = ["p", "q1", "foo", "a-b", "\u00e9", "x.y", "_", "src"]


def val(r):
    k = r.random()
    if k < .1:
        return ""
    if k < .3:
        return r.choice(["foo", "1.0", "https://x.y/z?a=1&b=2", "project.cpp", "Mon Jan 1"])
    if k < .33:
        return r.choice(ATOMS) * r.choice([300, 1100, 5000])
    return "".join(r.choice(ATOMS) for _ in range(r.randint(1, 6)))


class Arch:
    def __init__(self):
        self.f = dict(url=None, version=None, src_encoding=None, xml_encoding=None, language=None)
        self.opt = None       # measured
        self.on, self.off = 0, 0
        self.tab = None
        self.pi = None
        self.ns = {xmlu.SRC: ""}
        self.order = [xmlu.SRC]
        self.extra = 0        # options from namespaces
        self.solitary = False
        self.hash = True

    def copy(self):
        b = Arch()
        b.__dict__.update({k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()})
        return b


def make(r, i, ctx):
    c = Case("c" + i, leak=r.random() < .05, chk=[])
    M = c.meta
    n = r.choice([1, 1, 2, 3])
    A = {}
    chk = M["chk"]        # (line, expected, what)
    wide = r.random() < .5      # names and processing instructions cannot have character references


    def mutate(a, m):
        k = r.randrange(13)
        if k < 4:
            f = r.choice(["url", "version"])
            v = val(r) if r.random() < .9 else None
            c.add("archive_set_%s a%d" % (f, a), q(v) if v is not None else "~")
            m.f[f] = v
        elif k == 4:
            v = r.choice(["UTF-8", "ISO-8859-1", "UTF-16", "windows-1252", None])
            c.add("archive_set_src_encoding a%d" % a, q(v) if v else "~")
            m.f["src_encoding"] = v
        elif k == 5:
            v = r.choice(["UTF-8", "UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "windows-1252"] if not wide else ["UTF-8", "UTF-16"])
            c.add("archive_set_xml_encoding a%d" % a, q(v))
            m.f["xml_encoding"] = v
        elif k == 6:
            v = r.choice(gen.LANGS + [None])
            c.add("archive_set_language a%d" % a, q(v) if v else "~")
            m.f["language"] = v
        elif k == 7:
            v = r.choice([1, 2, 3, 4, 8, 16, 100])
            c.add("archive_set_tabstop a%d" % a, v)
            m.tab = v
        elif k == 8:
            t = r.choice(["t", "xml-stylesheet", "php", "\u00e9x" if wide else "T"])
            d = val(r).replace("\r", "").replace("?", "!").strip(" \t\n")
            if not wide:
                d = d.encode("ascii", "ignore").decode().strip(" \t\n")
            c.add("archive_set_processing_instruction a%d" % a, q(t), q(d))
            m.pi = (t, d)
        elif k in (9, 10):
            u = r.choice(URIS + [xmlu.SRC, xmlu.CPP, xmlu.POS, xmlu.OMP])
            used = set(m.ns.values()) | {"cpp", "omp", "pos", "err"}
            p = r.choice([x for x in PREF if x not in used and (wide or x.isascii())] or ["z%d" % len(m.ns)])
            if p in m.ns.values():
                return
            c.add("archive_register_namespace a%d" % a, q(p), q(u))
            if u not in m.ns:
                m.order.append(u)
            m.ns[u] = p
            if u == xmlu.CPP:
                m.extra |= 8
                m.on |= 8
                m.off &= ~8
            if u == xmlu.POS:
                m.on |= 4
                m.off &= ~4
        elif k == 11:
            v = r.choice([4, 8, 16, 32, 64, 2, 4 | 16, 127])
            if r.random() < .6:
                c.add("archive_enable_option a%d" % a, v)
                m.on |= v
                m.off &= ~v
            else:
                c.add("archive_disable_option a%d" % a, v)
                m.off |= v
                m.on &= ~v
        else:
            v = r.choice([0, 4, 8, 16, 32, 64, 2, 127, 52])
            c.add("archive_set_options a%d" % a, v)
            m.on, m.off = v, 127 & ~v

    def getters(a, m):
        for f in m.f:
            chk.append((len(c.lines), m.f[f], "archive a%d %s" % (a, f)))
            c.add("archive_get_%s a%d" % (f, a))
        chk.append((len(c.lines), ("opt", m.on, m.off), "archive a%d options" % a))
        c.add("archive_get_options a%d" % a)
        if m.tab is not None:
            chk.append((len(c.lines), ("int", m.tab), "archive a%d tabstop" % a))
        c.add("archive_get_tabstop a%d" % a)
        chk.append((len(c.lines), m.pi and m.pi[0], "pi target"))
        c.add("archive_get_processing_instruction_target a%d" % a)
        chk.append((len(c.lines), m.pi and m.pi[1], "pi data"))
        c.add("archive_get_processing_instruction_data a%d" % a)
        chk.append((len(c.lines), ("int", len(m.order)), "namespaces"))
        c.add("archive_get_namespace_size a%d" % a)
        for k, u in enumerate(m.order):
            for op, e in (("archive_get_namespace_prefix a%d %d" % (a, k), m.ns[u]), ("archive_get_namespace_uri a%d %d" % (a, k), u),
                          ("archive_get_prefix_from_uri a%d %s" % (a, q(u)), m.ns[u]), ("archive_get_uri_from_prefix a%d %s" % (a, q(m.ns[u])), u)):
                chk.append((len(c.lines), e, op))
                c.add(op)
        chk.append((len(c.lines), None, "unknown uri"))
        c.add("archive_get_prefix_from_uri a%d 'nope" % a)

    for a in range(n):
        c.add("acreate a%d" % a)
        A[a] = Arch()
        if r.random() < .1:
            c.add("archive_disable_hash a%d" % a)
            A[a].hash = False
    nc = n
    for _ in range(r.randint(0, 14)):
        a = r.choice(list(A))
        if r.random() < .07 and nc < 5:
            c.add("aclone a%d a%d" % (nc, a))
            A[nc] = A[a].copy()
            nc += 1
        else:
            mutate(a, A[a])
        if r.random() < .15:
            b = r.choice(list(A))
            getters(b, A[b])
    M["docs"] = []
    ucount = 0
    for a, m in A.items():
        getters(a, m)
        sol = r.random() < .2
        if sol:
            c.add("archive_enable_solitary_unit a%d" % a)
        m.solitary = sol
        units = []
        for k in range(1 if sol else r.randint(0, 4)):
            u = dict(id=ucount, f=dict(filename=None, version=None, timestamp=None), lang=r.choice(gen.LANGS))
            ucount += 1
            units.append(u)
        d = dict(a=a, m=m, units=units, wopen=len(c.lines))
        c.add("wopen a%d mem m%d" % (a, a))
        for u in units:
            if r.random() < .12 and units[0]["id"] < u["id"]:
                c.add("uclone u%d u%d" % (u["id"], u["id"] - 1))
                u["f"] = dict(units[u["id"] - units[0]["id"] - 1]["f"])
                u["lang"] = units[u["id"] - units[0]["id"] - 1]["lang"]
            else:
                c.add("ucreate u%d a%d" % (u["id"], a)).add("unit_set_language u%d" % u["id"], q(u["lang"]))
        acts = []
        for u in units:
            acts += [("set", u)] * r.randint(0, 4)
        r.shuffle(acts)
        for _, u in acts:
            f = r.choice(list(u["f"]))
            v = val(r) if r.random() < .9 else None
            c.add("unit_set_%s u%d" % (f, u["id"]), q(v) if v is not None else "~")
            u["f"][f] = v
        for u in units:
            u["at"] = len(c.lines)
            c.add("unit_set_src_encoding u%d 'UTF-8" % u["id"])
            c.add("parse u%d mem %s" % (u["id"], q(r.choice(["a;\n", "int a;", "", "#define A\n", "f(x, y);\n// c\n", "#pragma omp parallel\nint b;\n", "/** d */ class A { };\n"]))))
            for f in u["f"]:
                chk.append((len(c.lines), u["f"][f], "unit %s" % f))
                c.add("unit_get_%s u%d" % (f, u["id"]))
            c.add("unit_get_srcml_outer u%d" % u["id"])
            u["w"] = len(c.lines)
            c.add("archive_write_unit a%d u%d" % (a, u["id"]))
            c.add("unit_get_hash u%d" % u["id"])
        c.add("archive_close a%d" % a)
        if r.random() < .3:
            getters(a, m)
        d["data"] = len(c.lines)
        c.add("mem m%d" % a)
        # read it
        b = 10 + a
        c.add("acreate a%d" % b)
        d["ropen"] = len(c.lines)
        c.add("ropen a%d %s m%d" % (b, r.choice(["mem", "mem", "file", "io"]), a))
        for f in ("url", "version", "xml_encoding", "language", "revision", "tabstop", "options", "processing_instruction_target", "processing_instruction_data", "namespace_size"):
            c.add("archive_get_%s a%d" % (f, b))
        for u in m.order:
            c.add("archive_get_prefix_from_uri a%d %s" % (b, q(u)))
        d["uread"] = len(c.lines)
        for k in range(len(units) + 1):
            c.add("read u%d a%d" % (100 + k, b))
            for f in ("filename", "version", "timestamp", "language", "hash", "srcml_outer"):
                c.add("unit_get_%s u%d" % (f, 100 + k))
        # copy, from the units read
        c.add("aclone a%d a%d" % (20 + a, b))
        d["recopy"] = len(c.lines)
        c.add("archive_get_url a%d" % (20 + a)).add("archive_get_version a%d" % (20 + a)).add("archive_get_tabstop a%d" % (20 + a))
        c.add("wopen a%d mem m%d" % (20 + a, 20 + a))
        for k in range(len(units)):
            c.add("archive_write_unit a%d u%d" % (20 + a, 100 + k))
        c.add("archive_close a%d" % (20 + a))
        d["copy"] = len(c.lines)
        c.add("mem m%d" % (20 + a))
        c.add("archive_close a%d" % b)
        M["docs"].append(d)
    return c


def show(v):
    return None if v == "~" else (unq(v) or b"").decode("utf-8", "surrogateescape") if v.startswith("'") else int(v)


def outer_error(root, el, o):
    """the fragment, put below an element with the declarations of the root, is the unit (without url)"""
    decl = "".join(" xmlns%s=\"%s\"" % (":" + p if p else "", u.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")) for p, u in root.decls)
    try:
        g = xmlu.parse("<?xml version='1.0' encoding='UTF-8'?><x%s>%s</x>" % (decl, o)).root
    except (xmlu.XmlError, TypeError) as e:
        return "%s: %r" % (e, (o or "")[:500])
    if len(g.kids) != 1:
        return "not one element: %r" % o[:300]
    g = g.kids[0]
    drop = [("", "url"), ("", "hash"), ("", "src-encoding"), ("", "revision"), ("", "options"), (xmlu.POS, "tabs")]
    a, b = ({k: v for k, v in n.attrs.items() if k not in drop} for n in (g, el))
    if a != b:
        return "attributes %r, of the unit %r" % (a, b)
    if (g.uri, g.name) != (el.uri, el.name) or "".join(map(canonk, g.kids)) != "".join(map(canonk, el.kids)):
        return "content %r is not that of the unit" % o[:500]


def canonk(k):
    return xmlu.canon(k) if not isinstance(k, str) else k.replace("&", "&amp;").replace("<", "&lt;")


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines

    def bad(kind, what):
        ctx.violation(kind, what, [c])

    for at, e, what in M["chk"]:
        g = show(L[at])
        if isinstance(e, tuple):
            if e[0] == "int":
                ok = g == e[1]
            else:
                ok = g & e[1] == e[1] and g & e[2] == 0
        else:
            ok = g == e
        if not ok:
            return bad("getter-" + what.split(" ")[-1 if what.startswith(("archive a", "unit")) else 0].replace("/", ""), "line %d: %s returned %r, expected %r" % (at + 1, what, g, e))
        ctx.tally("getters")
    for d in M["docs"]:
        m, a = d["m"], d["a"]
        if L[d["wopen"]] != "0":
            return bad("open", L[d["wopen"]])
        raw = unq(L[d["data"]])
        try:
            doc = xmlu.parse(raw)
        except (xmlu.XmlError, TypeError) as e:
            return bad("not-well-formed", "%s: %r" % (e, raw and raw[:600]))
        root = doc.root
        opt = None
        decls = dict((u, p) for p, u in root.decls)
        written = [u for u in d["units"] if L[u["w"]] == "0"]
        if len(written) != len(d["units"]):
            return bad("unit-not-written", "%s" % [L[u["w"]] for u in d["units"]])
        sol = m.solitary
        if True:
            for f in ("url", "version"):
                if sol and f == "version":
                    continue
                if root.get(f) != m.f[f]:
                    return bad("root-" + f, "%r in the document, %r set" % (root.get(f), m.f[f]))
        for u, p in m.ns.items():
            if u in (xmlu.CPP, xmlu.OMP):
                continue
            if u == xmlu.POS and m.off & 4:
                continue
            if decls.get(u) != p:
                return bad("root-namespace", "%r declared with prefix %r, registered %r" % (u, decls.get(u), p))
        if (doc.pis[0] if doc.pis else None) != (m.pi and (m.pi[0], m.pi[1])) and not (m.pi and doc.pis and doc.pis[0] == (m.pi[0], m.pi[1])):
            return bad("processing-instruction", "%r in the document, %r set" % (doc.pis, m.pi))
        if m.tab is not None and m.on & 4 and root.get("tabs", xmlu.POS) != str(m.tab):
            return bad("root-tabs", "%r, set %r" % (root.get("tabs", xmlu.POS), m.tab))
        for o, nme in ((16, "CPP_TEXT_ELSE"), (32, "CPP_MARKUP_IF0")):
            has = nme in (root.get("options") or "").split(",")
            if has and m.off & o or not has and m.on & o:
                return bad("root-options", "%r, enabled %d disabled %d" % (root.get("options"), m.on, m.off))
        el = [root] if sol else xmlu.units(root)
        if len(el) != len(d["units"]):
            return bad("units", "%d elements, %d units" % (len(el), len(d["units"])))
        for u, e in zip(d["units"], el):
            for f in u["f"]:
                if e.get(f) != u["f"][f]:
                    return bad("unit-attribute-" + f, "%r in the document, %r set" % (e.get(f), u["f"][f]))
            # and nothing else, such as what is of the archive
            may = {("", f) for f in u["f"]} | {("", "language"), ("", "revision"), ("", "hash"), ("", "src-encoding"), (xmlu.POS, "tabs")}
            if sol:
                may |= {("", "url"), ("", "options")}
            if set(e.attrs) - may:
                return bad("unit-attribute-extra", "a unit has the attributes %r" % e.attrs)
            if m.hash != (e.get("hash") is not None) or m.on & 4 and not e.get("tabs", xmlu.POS) or m.off & 4 and e.get("tabs", xmlu.POS) or m.on & 64 and not e.get("src-encoding") or m.off & 64 and e.get("src-encoding"):
                return bad("unit-attribute-set", "a unit has the attributes %r, hashing %r, enabled %d disabled %d" % (e.attrs, m.hash, m.on, m.off))
            if e.get("language") != u["lang"]:
                return bad("unit-attribute-language", "%r, %r" % (e.get("language"), u["lang"]))
        # the reader
        b = d["ropen"]
        if L[b] != "0":
            return bad("read-open", L[b])
        g = [show(v) for v in L[b + 1:b + 11]]
        url, version, xmlenc, lang, rev, tab, opts, pit, pid, nsz = g
        if True:
            if (url, version if not sol else 0) != (m.f["url"], m.f["version"] if not sol else 0):
                return bad("read-archive", "url %r version %r read, %r %r written" % (url, version, m.f["url"], m.f["version"]))
        if rev != "1.0.0":
            return bad("read-revision", "%r" % rev)
        exp = m.f["xml_encoding"] or "UTF-8"
        if (xmlenc or "").upper() != exp.upper() and not (m.on & 2):
            return bad("read-xml-encoding", "%r read, %r written" % (xmlenc, exp))
        if m.on & 4 and m.tab is not None and tab != m.tab:
            return bad("read-tabs", "%r read, %r written" % (tab, m.tab))
        for o in (4, 16, 32):
            if m.on & o and not opts & o or m.off & o and opts & o:
                return bad("read-options", "options %d read, %d enabled %d disabled when written" % (opts, m.on, m.off))
        if (pit, pid) != (m.pi or (None, None)):
            return bad("read-processing-instruction", "%r read, %r written" % ((pit, pid), m.pi))
        for k, u in enumerate(m.order):
            p = show(L[b + 11 + k])
            if u in (xmlu.CPP, xmlu.OMP) or (u == xmlu.POS and m.off & 4):
                continue
            if p != m.ns[u]:
                return bad("read-namespace", "prefix of %r is %r, written %r" % (u, p, m.ns[u]))
        at = d["uread"]
        if not d["units"]:
            ctx.tally("empty")
            continue
        for k, u in enumerate(d["units"]):
            ok, fn, ve, ts, la, ha, re_ = [show(v) for v in L[at + 7 * k:at + 7 * k + 7]]
            if ok != 1:
                return bad("read-unit", "unit %d of %d not read" % (k, len(d["units"])))
            if (fn, ve, ts, la) != (u["f"]["filename"], u["f"]["version"], u["f"]["timestamp"], u["lang"]):
                return bad("read-unit-attributes", "unit %d: %r read, %r written" % (k, (fn, ve, ts, la), (u["f"], u["lang"])))
            for w, o in (("parsed", show(L[u["w"] - 1])), ("read", re_)):
                e = outer_error(root, el[k], o)
                if e:
                    return bad("outer-" + w, "unit %d: %s" % (k, e))
            h = show(L[u["w"] + 1])
            if ha != h or (h is None) == m.hash:
                return bad("read-hash", "%r read, %r written, hashing %r" % (ha, h, m.hash))
        if L[at + 7 * len(d["units"])] != "0":
            return bad("extra-unit", "more units than written")
        cp = unq(L[d["copy"]])
        try:
            cd = xmlu.parse(cp)
        except (xmlu.XmlError, TypeError) as e:
            return bad("copy-not-well-formed", "%s: %r" % (e, cp and cp[:600]))
        if xmlu.canon(cd.root) != xmlu.canon(root) or (cd.pis[:1] != doc.pis[:1]):
            p1, p2 = xmlu.canon(root), xmlu.canon(cd.root)
            k = next((k for k in range(min(len(p1), len(p2))) if p1[k] != p2[k]), 0)
            return bad("copy-differs", "copy %r, original %r" % (p2[max(0, k - 60):k + 200], p1[max(0, k - 60):k + 200]))
        ctx.tally("documents")
        ctx.seen((sorted(m.f.items(), key=repr), m.tab, m.pi, sorted(m.ns.items()), m.on, m.off, [sorted(u["f"].items(), key=repr) for u in d["units"]]))
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "bytes still allocated after each of four runs: %s" % x.alloc)


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(4000, 60000), make, judge, chunk=100, batch=25, tag="a")
