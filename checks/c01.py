"""C01: text survives source -> srcML -> source."""
import gen, xmlu
from vrun import Case, q, unq

RULE = ("random source texts (corpus programs, mutations, token soup, raw characters, buffer-boundary and long texts, all line ends) in "
        "5 languages x option subsets x registered macros, parsed, written, read back, unparsed under ASan+UBSan; non-trivial: the markup has "
        "at least one element besides the unit, counted as distinct markup shapes")


def macro_doc(r):
    ml = []
    for n in r.sample(["foo", "Bar", "a", "M", "x", "if", "c"], r.randint(1, 4)):
        ml.append('<macro-list token="%s" type="%s"/>' % (n, r.choice(["src:macro", "src:name", "src:type", "src:case", "src:label", "src:specifier", "zz"])))
    return ('<unit xmlns="%s" revision="1.0.0">\n%s<unit revision="1.0.0" language="C++"><name>a</name></unit>\n</unit>' % (xmlu.SRC, "".join(ml)))


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    n = 1 if r.random() < .8 else r.randint(2, 4)
    opt = gen.options(r)
    solitary = n == 1 and r.random() < .3
    xenc = r.choice(["UTF-8", "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16"])
    c = Case("c" + i, lang=lang, opt=opt, texts=[], solitary=solitary, xenc=xenc, at={})
    mac = r.random() < .1
    if mac:
        c.lines += ["acreate a9", "ropen a9 mem " + q(macro_doc(r)), "read u9 a9", "aclone a0 a9"]
    else:
        c.add("acreate a0")
    c.add("archive_set_language a0", q(lang)).add("archive_set_src_encoding a0", q("UTF-8")).add("archive_set_xml_encoding a0", q(xenc))
    c.add("archive_enable_option a0", opt)
    if solitary:
        c.add("archive_enable_solitary_unit a0")
    c.add("wopen a0 mem m0")
    for k in range(n):
        t = gen.anytext(r, lang)
        if mac:
            for w in ("foo", "M", "a"):
                if r.random() < .5:
                    j = r.randrange(len(t) + 1)
                    t = t[:j] + r.choice([" %s ", "%s(a, b)", "%s(", "%s (x) ;", "%s)", "%s:", " %s x;"]) % w + t[j:]
        c.meta["texts"].append(t)
        c.add("ucreate u%d a0" % k)
        if r.random() < .3 and not solitary and xenc != "UTF-16":
            c.meta["at"][k] = None
        c.add("parse u%d mem %s" % (k, q(t)))
        if k in c.meta["at"]:
            c.meta["at"][k] = len(c.lines)
            c.add("unit_get_srcml u%d" % k)
        c.add("archive_write_unit a0 u%d" % k)
    c.add("archive_close a0")
    c.meta["doc"] = len(c.lines)
    c.add("mem m0").add("acreate a1").add("archive_set_src_encoding a1", q("UTF-8")).add("ropen a1 mem m0")
    c.meta["back"] = []
    for k in range(n):
        c.add("read u%d a1" % (50 + k)).add("unparse u%d mem m%d" % (50 + k, 1 + k))
        c.meta["back"].append(len(c.lines))
        c.add("mem m%d" % (1 + k))
    return c


def diff(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return "first difference at %d of %d/%d: expected %r, got %r" % (i, len(a), len(b), a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    m = c.meta
    tag = "lang %s options %d encoding %s solitary %d" % (m["lang"], m["opt"], m["xenc"], m["solitary"])
    ctx.tally("lang_" + m["lang"], len(m["texts"]))
    try:
        d = xmlu.parse(unq(x.lines[m["doc"]]) or b"")
    except xmlu.XmlError as e:
        ctx.violation("unreadable-document", "%s: %s\nsource: %r" % (tag, e, [t[:400] for t in m["texts"]]), [c])
        return
    us = [d.root] if m["solitary"] else xmlu.units(d.root)
    if len(us) != len(m["texts"]):
        ctx.violation("unit-count", "%s: %d units for %d texts" % (tag, len(us), len(m["texts"])), [c])
        return
    for k, t in enumerate(m["texts"]):
        exp = xmlu.norm(t)
        got = xmlu.text(us[k])
        els = tuple(e.name for e in us[k].iter())
        ctx.seen((els, m["opt"], m["lang"]), nontrivial=len(els) > 1)
        ctx.tally("elements", len(els))
        if len(t) > 20:
            ctx.sample({"lang": m["lang"], "opt": m["opt"], "source": t[:200], "elements": len(els)})
        if got != exp:
            ctx.violation("markup-text-differs", "%s unit %d: %s\nsource %r" % (tag, k, diff(exp, got), t[:600]), [c])
            return
        b = unq(x.lines[m["back"][k]])
        if b != exp.encode("utf-8", "surrogatepass"):
            ctx.violation("unparsed-text-differs", "%s unit %d: %s\nsource %r" % (tag, k, diff(exp.encode(), b or b""), t[:600]), [c])
            return
        if k in m["at"]:
            o = unq(x.lines[m["at"][k]])
            try:
                g2 = xmlu.text(xmlu.parse(o or b"").root)
            except xmlu.XmlError as e:
                ctx.violation("unit-srcml-unreadable", "%s: %s %r" % (tag, e, (o or b"")[:300]), [c])
                return
            if g2 != exp:
                ctx.violation("unit-text-differs", "%s: %s" % (tag, diff(exp, g2)), [c])
                return


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(24000, 900000), make, judge)
