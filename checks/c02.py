"""C02: every document written is well-formed, namespace-correct srcML."""
import json, os
import gen, xmlu
from vrun import Case, q, unq

RULE = ("documents (archives of 0-4 units or solitary units) from random sources x options x registered prefixes x XML encodings x metadata with "
        "XML special characters, read by expat with namespaces and compared with the srcML vocabulary; non-trivial: the document has markup "
        "beyond the units, counted as distinct (element, attribute, prefix) sets with options")
VOC = {k: v for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json"))).items()}
UNIT_ATTRS = {"revision", "language", "url", "filename", "version", "timestamp", "hash", "src-encoding", "options"}
XENC = ["UTF-8"] * 6 + ["ISO-8859-1", "UTF-16", "us-ascii", "windows-1252", "KOI8-R"]
DEFAULT = {xmlu.SRC: "", xmlu.CPP: "cpp", xmlu.POS: "pos", xmlu.OMP: "omp", xmlu.ERR: "err"}
META = ["a.cpp", "dir/b c.c", "<&>\"'.cpp", "\u00e9\u20ac.java", "x&amp;y", "1.0", "", "tab\there", "line\nbreak", "]]>", "\U0001F600"]


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    opt = gen.options(r)
    if r.random() < .15:
        opt |= 64
    xenc = r.choice(XENC)
    nodecl = r.random() < .08
    if nodecl:
        opt |= 2
        xenc = "UTF-8"
    solitary = r.random() < .35
    n = 1 if solitary else r.choice([0, 1, 1, 1, 2, 2, 3, 4])
    c = Case("c" + i, lang=lang, opt=opt, texts=[], solitary=solitary, xenc=xenc, pre=dict(DEFAULT), user={}, frag=[], url=None, pi=None, langs=[])
    c.add("acreate a0").add("archive_set_src_encoding a0", q("UTF-8")).add("archive_set_xml_encoding a0", q(xenc)).add("archive_enable_option a0", opt)
    c.meta["posreg"] = False
    names = ["s", "src", "my-p", "p.2", "_x", "pp", "q", "zz"]
    r.shuffle(names)
    if r.random() < .3:
        for uri in r.sample([xmlu.SRC, xmlu.CPP, xmlu.POS, xmlu.OMP], r.randint(1, 3)):
            pr = names.pop()
            c.meta["pre"][uri] = pr
            c.add("archive_register_namespace a0", q(pr), q(uri))
    if r.random() < .25:
        for uri in r.sample(["http://example.org/a?b=1&c=<2>", "urn:x", "http://www.sdml.info/other"], r.randint(1, 2)):
            pr = names.pop()
            c.meta["user"][uri] = pr
            c.add("archive_register_namespace a0", q(pr), q(uri))
    if solitary:
        c.add("archive_enable_solitary_unit a0")
    if r.random() < .4:
        c.add("archive_disable_hash a0")
    if r.random() < .2:
        c.meta["url"] = r.choice(META)
        c.add("archive_set_url a0", q(c.meta["url"]))
    if r.random() < .15:
        c.meta["pi"] = ("xml-stylesheet", "href=\"a<b>&c.xsl\" type='text/xsl'")
        c.add("archive_set_processing_instruction a0", q(c.meta["pi"][0]), q(c.meta["pi"][1]))
    c.add("archive_set_tabstop a0", r.choice([1, 3, 4, 8])) if r.random() < .3 else None
    c.meta["wopen"] = len(c.lines)
    c.add("wopen a0 mem m0")
    for k in range(n):
        l = lang if r.random() < .7 else r.choice(gen.LANGS)
        t = gen.anytext(r, l)
        c.meta["texts"].append(t)
        c.meta["langs"].append(l)
        c.add("ucreate u%d a0" % k).add("unit_set_language u%d" % k, q(l))
        at = {}
        for f in ("filename", "version", "timestamp"):
            if r.random() < .25:
                at[f] = r.choice(META)
                c.add("unit_set_%s u%d" % (f, k), q(at[f]))
        c.add("parse u%d mem %s" % (k, q(t)))
        if r.random() < .3:
            c.meta["frag"].append((k, len(c.lines)))
            c.add("unit_get_srcml u%d" % k).add("unit_get_srcml_outer u%d" % k).add("unit_get_srcml_inner u%d" % k)
        c.add("archive_write_unit a0 u%d" % k)
    c.add("archive_close a0")
    c.meta["doc"] = len(c.lines)
    c.add("mem m0").add("archive_get_revision a0")
    return c


def element(n, pre):
    """None or what is wrong with one element other than unit"""
    key = n.uri + "|" + n.name
    v = VOC.get(key)
    if v is None:
        return "element {%s}%s is not in the srcML vocabulary" % (n.uri, n.name)
    if (n.prefix or "") != pre.get(n.uri, ""):
        return "element {%s}%s has prefix %r, registered %r" % (n.uri, n.name, n.prefix, pre.get(n.uri))
    at = {}
    for (u, a), val in n.attrs.items():
        if u == xmlu.POS and a in ("start", "end"):
            continue
        if u:
            return "attribute {%s}%s on %s" % (u, a, n.name)
        at[a] = val
    for alt in v:
        if set(alt) == set(at) and all(alt[a] is None or alt[a] == at[a] for a in alt):
            return None
    return "attributes %r not allowed on %s" % (at, n.name)


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    m = c.meta
    tag = "lang %s options %d encoding %s solitary %d prefixes %r" % (m["lang"], m["opt"], m["xenc"], m["solitary"], {**m["pre"], **m["user"]})
    src = "\nsources %r" % ([t[:500] for t in m["texts"]])

    def bad(kind, what):
        ctx.violation(kind, "%s: %s%s" % (tag, what, src), [c])

    doc = unq(x.lines[m["doc"]]) or b""
    rev = unq(x.lines[m["doc"] + 1])
    if x.lines[m["wopen"]] != "0":
        return bad("open-failed", "write open failed: " + x.lines[m["wopen"]])
    if m["solitary"] and not m["texts"]:
        return
    try:
        d = xmlu.parse(doc)
    except xmlu.XmlError as e:
        return bad("not-well-formed", "%s: %r" % (e, doc[:600]))
    root = d.root
    if (m["opt"] & 2) == 0:
        if d.decl is None or d.decl[1] is None or d.decl[1].upper() != m["xenc"].upper():
            return bad("xml-declaration", "declaration %r" % (d.decl,))
    elif d.decl is not None:
        return bad("xml-declaration", "declaration written in spite of the option: %r" % (d.decl,))
    if root.uri != xmlu.SRC or root.name != "unit":
        return bad("root", "root is {%s}%s" % (root.uri, root.name))
    if m["pi"] and m["pi"] not in d.pis:
        return bad("processing-instruction", "wrote %r, document has %r" % (m["pi"], d.pis))
    us = [root] if m["solitary"] else xmlu.units(root)
    if len(us) != len(m["texts"]):
        return bad("unit-count", "%d unit elements for %d units" % (len(us), len(m["texts"])))
    if not m["solitary"]:
        for k in root.kids:
            if isinstance(k, str):
                if k.strip():
                    return bad("text-in-archive", repr(k))
            elif k.name != "unit":
                return bad("element-in-archive", k.name)
    for u, pr in m["user"].items():
        if (pr, u) not in root.decls:
            return bad("registered-namespace", "%s=%s not declared on the root: %r" % (pr, u, root.decls))
    kinds = set()
    for un in ([root] if m["solitary"] else [root] + us):
        if un.get("revision") != (rev or b"").decode():
            return bad("revision", "unit has revision %r, archive %r" % (un.get("revision"), rev))
        for (u, a), v in un.attrs.items():
            if not ((u == "" and a in UNIT_ATTRS) or (u == xmlu.POS and a == "tabs")):
                return bad("unit-attribute", "{%s}%s on a unit" % (u, a))
        if (un.prefix or "") != m["pre"][xmlu.SRC]:
            return bad("prefix", "unit has prefix %r" % un.prefix)
    for k, un in enumerate(us):
        if un.get("language") != m["langs"][k]:
            return bad("language", "unit %d has language %r" % (k, un.get("language")))
        for n in un.iter():
            if n is un:
                continue
            w = element(n, m["pre"])
            if w:
                return bad("vocabulary", w)
            if n.name == "escape" and n.uri == xmlu.SRC:
                try:
                    v = int(n.get("char"), 16)
                except (TypeError, ValueError):
                    return bad("escape", "char=%r" % n.get("char"))
                if v in (9, 10, 13) or (v >= 32 and v != 127) or n.kids:
                    return bad("escape", "escape for %r with content %r" % (n.get("char"), n.kids))
                ctx.tally("escapes")
            if n.uri == xmlu.CPP and not m["opt"] & 8 and m["langs"][k] == "Java" and m["pre"][xmlu.CPP] == "cpp":
                pass
            kinds.add((n.uri[-4:], n.name, tuple(sorted(n.attrs)) if len(n.attrs) < 3 else 0))
        exp = xmlu.norm(m["texts"][k])
        if xmlu.text(un) != exp:
            return bad("text", "text of unit %d differs from its source" % k)
    ctx.seen((sorted(map(repr, kinds)), m["opt"], m["xenc"], m["solitary"], sorted(m["pre"].values())), nontrivial=len(kinds) > 0)
    ctx.tally("documents")
    ctx.tally("elements", d.nodes)
    if m["user"] or m["pre"] != DEFAULT:
        ctx.tally("documents_with_registered_prefixes")
    if len(doc) > 300:
        ctx.sample({"options": m["opt"], "encoding": m["xenc"], "prefixes": m["pre"], "document": doc[:300].decode("latin-1")})
    # the unit as text: on its own, without declarations, without the unit element
    for k, at in m["frag"]:
        full, outer, inner = [unq(l) for l in x.lines[at:at + 3]]
        try:
            f = xmlu.parse(b"<?xml version='1.0' encoding='UTF-8'?>" + (full or b"")).root
        except xmlu.XmlError as e:
            return bad("unit-not-well-formed", "srcml_unit_get_srcml: %s %r" % (e, (full or b"")[:400]))
        ns = "".join(" xmlns%s=\"%s\"" % (":" + p if p else "", u) for u, p in m["pre"].items())
        sp = (m["pre"][xmlu.SRC] + ":") if m["pre"][xmlu.SRC] else ""
        for what, frag in (("outer", outer), ("inner", inner)):
            try:
                g = xmlu.parse(("<wrap" + ns + ">").encode() + (frag or b"") + b"</wrap>").root
            except xmlu.XmlError as e:
                return bad("unit-%s-not-well-formed" % what, "%s %r" % (e, (frag or b"")[:400]))
            if what == "outer":
                if len(g.kids) != 1 or not isinstance(g.kids[0], xmlu.Node):
                    return bad("unit-outer", "not one element: %r" % (frag or b"")[:300])
                g = g.kids[0]
                a, b = g, f
                if a.name != "unit" or b.name != "unit":
                    return bad("unit-outer", "not a unit element")
            a = "".join(xmlu.canon(z) if isinstance(z, xmlu.Node) else "T" + z for z in g.kids)
            b = "".join(xmlu.canon(z) if isinstance(z, xmlu.Node) else "T" + z for z in us[k].kids)
            if a != b:
                return bad("unit-%s-differs" % what, "content of srcml_unit_get_srcml_%s differs from the archive's: %r" % (what, (frag or b"")[:300]))
        ctx.tally("fragments")


PROBES = [("noncharacter-fffe", "\ufffe"), ("noncharacter-ffff", "\uffff")]


def run(ctx):
    ctx.rule = RULE
    # known finding: characters that XML cannot represent and that are not control characters
    P = []
    for key, ch in PROBES:
        c = Case("probe_" + key, key=key)
        c.add("acreate a0").add("archive_set_src_encoding a0 'UTF-8").add("wopen a0 mem m0").add("ucreate u0 a0").add("unit_set_language u0 'C")
        c.add("parse u0 mem", q("// " + ch + "\na;\n")).add("archive_write_unit a0 u0").add("archive_close a0").add("mem m0")
        P.append(c)
    R = ctx.pool("full").run(P)
    for c in P:
        x = R.get(c.name)
        if not x or x.crash or not x.done:
            ctx.crash(c, x)
            continue
        ctx.tally("probe_runs")
        try:
            xmlu.parse(unq(x.lines[-1]))
        except xmlu.XmlError as e:
            ctx.violation("probe", "the document of source with %s is not well-formed: %s" % (c.meta["key"], e), [c], key=c.meta["key"])
    ctx.fan(ctx.n(20000, 600000), make, judge)
