"""C15: transformations give what their language defines, unit by unit."""
import blocks, gen, xmlu
from vrun import Case, q, unq

RULE = ("documents (parsed programs and generated trees, 1-4 units, several prefixes) are transformed by generated chains of XPath expressions, style sheets with parameters and schemas, "
        "and by the element/attribute variants; the units, scalars and statuses are compared with an oracle that evaluates each step with libxml2/libxslt on the canonical XML of the "
        "results of the step before (the variants: with the tree edited in Python); results are read from an archive they are written to; non-trivial: a result that is not empty; distinct by (document, chain)")

EXPRNAMES = ["name", "expr", "block", "decl", "type", "operator", "literal", "call", "function", "if", "unit", "init", "comment", "*", "expr_stmt", "argument", "decl_stmt", "condition", "escape"]
AXES = ["child", "descendant", "descendant-or-self", "parent", "ancestor", "following-sibling", "preceding-sibling", "following", "preceding", "self", "ancestor-or-self"]


def nodetest(r):
    k = r.random()
    if k < .78:
        return "src:" + r.choice(EXPRNAMES)
    return r.choice(["*", "node()", "text()", "cpp:*", "comment()", "cpp:directive", "processing-instruction()"])


def path(r, d=0):
    s = r.choice(["//", "//", "//", "/", ""])
    n = r.choice([1, 1, 2, 3])
    steps = []
    for k in range(n):
        t = nodetest(r)
        if r.random() < .25:
            t = r.choice(AXES) + "::" + t
        while r.random() < .3 and d < 2:
            t += "[" + pred(r, d + 1) + "]"
        steps.append(t)
    if r.random() < .07:
        steps.append(r.choice(["@*", "@type", "@filename", "@language", "namespace::*"]))
    s += r.choice(["/", "/", "//"]).join(steps)
    return s


def pred(r, d):
    k = r.randrange(8)
    if k == 0:
        return str(r.randint(1, 4))
    if k == 1:
        return "last()"
    if k == 2:
        return "position()%s%d" % (r.choice(["<", ">", "=", " mod "]), r.randint(1, 3))
    if k == 3:
        return "contains(., '%s')" % r.choice("ab=x1")
    if k == 4:
        return "@" + r.choice(["type", "char", "filename", "pos:start"])
    if k == 5:
        return "not(%s)" % rel(r, d)
    if k == 6:
        return "count(%s) > %d" % (rel(r, d), r.randint(0, 2))
    return rel(r, d)


def rel(r, d):
    p = path(r, d)
    return p.lstrip("/") if r.random() < .7 else p


def number(r):
    p = path(r)
    return r.choice(["count(%s)" % p, "string-length(%s)" % p, "sum(%s)" % p, "count(%s) div %d" % (p, r.randint(0, 3)), "number(%s)" % p, "floor(count(%s) div 3)" % p, "-count(%s)" % p, "count(%s) * 1e%d" % (p, r.choice([1, 9, 20]))])


def scalar(r):
    k = r.randrange(3)
    if k == 0:
        return number(r)
    p = path(r)
    if k == 1:
        return r.choice(["boolean(%s)" % p, "%s = 'a'" % p, "not(%s)" % p, "count(%s) > 2" % p, "true()", "%s != %s" % (p, path(r)), "contains(%s, 'a')" % p])
    return r.choice(["string(%s)" % p, "name(%s)" % p, "concat(%s, '<&>', local-name(%s))" % (p, p), "normalize-space(%s)" % p, "substring(%s, 2, 3)" % p, "''", "translate(%s, 'a', 'b')" % p, "'a\"b'"])


BAD = ["//src:name[", "", "//nosuch:name", "foo(", "nosuchfunction()", "//src:name]", "$undefined", "1 +", "//", "string(1,2,3)", "///a"]


def nodes(r):
    k = r.random()
    if k < .8:
        return path(r)
    if k < .9:
        return path(r) + " | " + path(r)
    return r.choice(["/", "//src:unit", "/src:unit", "/*/*", "//node()", "//text()", "//@*", "(%s)[2]" % path(r), "id('a')"])


SHEETBODY = [
    '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template><xsl:template match="src:%(n)s"/>',
    '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template><xsl:template match="src:%(n)s"><src:x a="{$p}"><xsl:apply-templates/></src:x></xsl:template>',
    '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template><xsl:template match="/src:unit"><xsl:copy><xsl:apply-templates select="@*"/><xsl:attribute name="language"><xsl:value-of select="\'Java\'"/></xsl:attribute><xsl:attribute name="foo"><xsl:value-of select="$p"/></xsl:attribute><xsl:apply-templates/></xsl:copy></xsl:template>',
    '<xsl:template match="/"><src:unit extra="{$p}"><xsl:copy-of select="%(x)s"/></src:unit></xsl:template>',
    '<xsl:template match="/"><xsl:copy-of select="%(x)s"/></xsl:template>',
    '<xsl:template match="/"><xsl:value-of select="$p"/>|<xsl:value-of select="count(%(x)s)"/>&lt;&amp;</xsl:template>',
    '<xsl:template match="/"><xsl:for-each select="%(x)s"><src:unit filename="{position()}"><src:c><xsl:value-of select="."/></src:c></src:unit></xsl:for-each></xsl:template>',
    '<xsl:template match="/"/>',
    '<xsl:template match="/"><z:r xmlns:z="http://z"><z:k><xsl:copy-of select="%(x)s"/></z:k></z:r></xsl:template>',
    '<xsl:template match="/"><src:unit xmlns:z="http://z"><z:k><xsl:value-of select="str:replace(string(.), \'a\', \'&lt;b\')"/></z:k></src:unit></xsl:template>',
    '<xsl:template match="/"><xsl:comment>c</xsl:comment><xsl:apply-templates/></xsl:template><xsl:template match="src:unit"><src:unit><xsl:apply-templates select="%(x)s"/></src:unit></xsl:template>',
]
SHEET = ('<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform" xmlns:src="%s" xmlns:cpp="%s" xmlns:pos="%s" xmlns:str="http://exslt.org/strings" exclude-result-prefixes="str pos"><xsl:output method="%s"/>'
         '<xsl:param name="p" select="\'dflt\'"/>%s</xsl:stylesheet>')
BADSHEET = ["<xsl", "<a/>", "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template/></xsl:stylesheet>",
            "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='['/></xsl:stylesheet>"]
TERMINATE = '<xsl:template match="/"><xsl:message terminate="yes">stop</xsl:message></xsl:template>'
RNG = ('<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><element><anyName/><ref name="c"/></element></start><define name="c"><zeroOrMore><choice><attribute><anyName/></attribute><text/>%s'
       '<element><anyName>%s</anyName><ref name="c"/></element></choice></zeroOrMore></define></grammar>')
BADRNG = ["<", "<a/>", '<grammar xmlns="http://relaxng.org/ns/structure/1.0"/>', '<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><ref name="no"/></start></grammar>']


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def rng(r):
    if r.random() < .3:
        return RNG % ("", "")
    return RNG % ("", '<except><name ns="%s">%s</name></except>' % (xmlu.SRC, r.choice(EXPRNAMES).replace("*", "name")))


def sheet(r):
    if r.random() < .05:
        b = TERMINATE
    else:
        b = r.choice(SHEETBODY)
        x = nodes(r)
        while "@" in x or "namespace::" in x or "id(" in x:
            x = nodes(r)
        b = b % {"n": r.choice(EXPRNAMES).replace("*", "name"), "x": esc(x)} if "%(" in b else b
    return SHEET % (xmlu.SRC, xmlu.CPP, xmlu.POS, r.choice(["xml", "xml", "text"]), b)


def tree(r, depth=0):
    """a random body"""
    out = []
    for _ in range(r.choice([1, 2, 3, 5])):
        k = r.random()
        if k < .55 and depth < 6:
            n = r.choice([e for e in EXPRNAMES if e not in ("*", "unit", "escape")])
            a = r.choice(["", "", ' type="%s"' % r.choice(["line", "a&lt;b", "x &quot;"]), ' z:at="1"'])
            if r.random() < .1:
                out.append('<cpp:directive>%s</cpp:directive>' % tree(r, depth + 1))
            else:
                out.append("<%s%s>%s</%s>" % (n, a, tree(r, depth + 1), n))
        elif k < .9:
            out.append(r.choice(["a", "b", " ", "\n", "a &lt; b", "x=1;", "\u00e9", "&amp;&amp;", "\"q\""]))
        elif k < .95:
            out.append('<escape char="0x1b"/>')
        elif depth and k < .97:
            out.append("<!--c-->" if r.random() < .7 else "<?p d?>")
    return "".join(out)


BODIES = []


def unitdoc(r):
    """attributes and body of a unit"""
    at = ' language="%s"' % r.choice(gen.LANGS)
    if r.random() < .8:
        at += ' filename="%s"' % r.choice(["a.cpp", "b/c.h", "x &amp; y"])
    if r.random() < .2:
        at += ' extra="e"'
    if r.random() < .3:
        at += ' hash="0123456789abcdef0123456789abcdef01234567"'
    if BODIES and r.random() < .55:
        return at, r.choice(BODIES)
    return at, tree(r)


NS = ' xmlns="%s" xmlns:cpp="%s" xmlns:pos="%s" xmlns:z="http://z"' % (xmlu.SRC, xmlu.CPP, xmlu.POS)


def strip(b):
    return b


PARSED = []


def makeparsed(r, i, ctx):
    """units parsed in memory; the results in an archive that knows nothing of them"""
    c = Case("p%s" % i, limit=60, leak=True)

    def add(*t):
        c.add(*t)
        return len(c.lines) - 1
    us = [r.choice(PARSED) for _ in range(r.choice([1, 1, 2]))]
    add("acreate", "a0")
    pos = us[0][3]
    us = [u for u in us if u[3] == pos]
    if pos:
        add("archive_enable_option", "a0", "4")
    steps, spec, prep = [], [], []
    for j in range(r.choice([1, 1, 1, 2])):
        if r.random() < .75:
            k = r.random()
            ex = r.choice(["//omp:*", "//omp:directive", "//omp:clause", "//omp:name", "//cpp:*", "//cpp:directive", "//cpp:define", "//src:literal", "//src:name[1]", "/src:unit", "//src:*[omp:*]", "//src:*[cpp:*]"]) if k < .6 else nodes(r)
            prep.append(("append_transform_xpath", "a0", q(ex)))
            spec += ["x", q(ex)]
            steps.append("x")
        else:
            s = sheet(r)
            prep.append(("xslt", "a0", "mem", q(s)))
            spec += ["s", q(s), 0]
            steps.append("s")
    c.meta["prep"] = [add(*p) for p in prep]
    add("acreate", "a1")
    add("wopen", "a1", "mem", "m0")
    c.meta["units"], docs = [], []
    for lang, name, src, _, doc in us:
        u = {}
        add("ucreate", "u0", "a0")
        add("unit_set_language", "u0", q(lang))
        if name:
            add("unit_set_filename", "u0", q(name))
        add("parse", "u0", "mem", q(src))
        u["before"] = add("unit_get_srcml", "u0")
        u["status"] = add("apply", "a0", "u0", "r0")
        u["after"] = add("unit_get_srcml", "u0")
        u["type"] = add("transform_get_type", "r0")
        u["size"] = add("transform_get_unit_size", "r0")
        u["string"] = add("transform_get_string", "r0")
        u["number"] = add("transform_get_number", "r0")
        u["bool"] = add("transform_get_bool", "r0")
        u["write"] = add("wresult", "a1", "r0")
        add("tfree", "r0")
        add("ufree", "u0")
        docs.append(doc)
        u["oracle"] = add("ox_chain", q(doc), *spec)
        c.meta["units"].append(u)
    add("archive_close", "a1")
    c.meta["out"] = add("mem", "m0")
    add("afree", "a0")
    add("afree", "a1")
    c.meta.update(docs=docs, us=us, variant=None, nul=False, key=(tuple(docs), tuple(map(str, spec))), steps="parsed" + "".join(steps))
    return c


def make(r, i, ctx):
    if PARSED and r.random() < .2:
        return makeparsed(r, i, ctx)
    n = r.choice([1, 1, 2, 3])
    us = [unitdoc(r) for _ in range(n)]
    solitary = n == 1 and r.random() < .5
    docs = ['<unit%s revision="1.0.0"%s>%s</unit>' % (NS, at, b) for at, b in us]
    if solitary:
        d = docs[0]
    else:
        d = '<unit%s revision="1.0.0">\n\n%s\n\n</unit>' % (NS, "\n\n".join('<unit revision="1.0.0"%s>%s</unit>' % x for x in us))
    d = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n%s\n' % d
    c = Case("t%s" % i, limit=60, leak=True)

    def add(*t):
        c.add(*t)
        return len(c.lines) - 1
    add("acreate", "a0")
    add("ropen", "a0", "mem", q(d))
    k = r.random()
    steps, spec, variant, bad, prep = [], [], None, False, []
    if k < .3:          # element / attribute variants
        ex = nodes(r)
        kind = r.choice(["e", "a", "ea"])
        el = (r.choice(["z", "w", "src"]), r.choice(["mark", "name"]))
        el = (el[0], {"z": "http://z", "w": "http://w", "src": xmlu.SRC}[el[0]], el[1])
        at = r.choice([("z", "http://z", "at", "v"), ("w", "http://w", "n", "a<b&\"c"), ("", "", "type", "v"), ("z", "http://z", "at", "1"),
                       ("", "", "type", r.choice(["i", "lin", "line", "line x", "a", "<", "b x", "num", "ber", "number", "r"])), ("z", "http://z", "at", "11")])
        if at[2] == "type" and r.random() < .6:
            ex = r.choice(["//*[@type]", "//src:literal", "//*", "//src:*[@type='line']"])
        if any("<!--" in b or "<?" in b for _, b in us):
            ex = "//src:name"
            us = [(a, b.replace("<!--c-->", "").replace("<?p d?>", "")) for a, b in us]
            return make(r, i, ctx)
        other = None
        if r.random() < .3:   # two steps with expressions of their own
            ex, other = r.sample(["//src:" + e for e in EXPRNAMES if e not in ("*", "unit", "escape", el[2])], 2)
            kind = r.choice(["ea", "ae"])
            if kind == "ae":
                prep.append(("append_transform_xpath_attribute", "a0", q(other), *map(q, at)))
        if "e" in kind:
            prep.append(("append_transform_xpath_element", "a0", q(ex), *map(q, el)))
        if "a" in kind:
            if kind != "ae":
                prep.append(("append_transform_xpath_attribute", "a0", q(other or ex), *map(q, at)))
            # again, with another value for the same attribute
            again = kind == "a" and "@" not in ex and r.random() < .4 and r.choice(["v", "1", at[3][:1], at[3][1:] or "z", at[3] + "z", "z" + at[3]])
            if again:
                prep.append(("append_transform_xpath_attribute", "a0", q(ex), *map(q, at[:3] + (again,))))
                at = at[:3] + (at[3], again)
        variant = (ex, el if "e" in kind else None, at if "a" in kind else None, other)
    else:
        m = r.choice([1, 1, 1, 2, 2, 3])
        for j in range(m):
            z = r.random()
            if z < .6:
                if r.random() < .05:
                    ex, bad = r.choice(BAD), True
                elif j == m - 1 and r.random() < .35:
                    ex = scalar(r)
                else:
                    ex = nodes(r)
                prep.append(("append_transform_xpath", "a0", q(ex)))
                spec += ["x", q(ex)]
                steps.append("x")
            elif z < .85:
                s = sheet(r)
                prep.append(("xslt", "a0", r.choice(["mem", "file", "FILE", "fd"]), q(s)))
                ps = []
                for _ in range(r.choice([0, 0, 1, 1])):
                    if r.random() < .5:
                        v = r.choice(["v", "a'b", 'c"d', "\"'\"", "<&", "count(//*)", ""])
                        prep.append(("append_transform_stringparam", "a0", q("p"), q(v)))
                        lit = '"%s"' % v if '"' not in v else "'%s'" % v if "'" not in v else "concat(" + ", ".join('"%s"' % p if p != '"' else "'\"'" for p in ("".join(x) for x in split(v))) + ", '')"
                        ps += [q("p"), q(lit)]
                    else:
                        v = r.choice(["count(//src:name)", "'lit'", "1 + 1", "string(//src:name)"])
                        prep.append(("append_transform_param", "a0", q("p"), q(v)))
                        ps += [q("p"), q(v)]
                spec += ["s", q(s), len(ps) // 2] + ps
                steps.append("s")
            else:
                s = rng(r)
                prep.append(("relaxng", "a0", r.choice(["mem", "file", "FILE", "fd"]), q(s)))
                spec += ["r", q(s)]
                steps.append("r")
        if r.random() < .06:
            which = r.random() < .5
            c.meta["badappend"] = add("xslt" if which else "relaxng", "a0", r.choice(["mem", "file", "fd"]), q(r.choice(BADSHEET if which else BADRNG)))
    c.meta["prep"] = [add(*p) for p in prep]
    add("aclone", "a1", "a0")
    add("archive_disable_solitary_unit", "a1")
    add("wopen", "a1", "mem", "m0")
    nul = r.random() < .12
    c.meta["units"] = []
    for j in range(n):
        u = {}
        add("read", "u0", "a0")
        u["before"] = add("unit_get_srcml", "u0")
        if r.random() < .5:
            add("unparse", "u0", "mem", "m1")
        u["status"] = add("apply", "a0", "u0", "~" if nul else "r0")
        u["after"] = add("unit_get_srcml", "u0")
        if nul:
            u["write"] = add("archive_write_unit", "a1", "u0")
        else:
            u["type"] = add("transform_get_type", "r0")
            u["size"] = add("transform_get_unit_size", "r0")
            u["string"] = add("transform_get_string", "r0")
            u["number"] = add("transform_get_number", "r0")
            u["bool"] = add("transform_get_bool", "r0")
            u["write"] = add("wresult", "a1", "r0")
            add("tfree", "r0")
        add("ufree", "u0")
        if variant:
            u["oracle"] = add("ox_select", q(docs[j]), q(variant[0]))
            if variant[3]:
                u["oracle2"] = add("ox_select", q(docs[j]), q(variant[3]))
        else:
            u["oracle"] = add("ox_chain", q(docs[j]), *spec)
        c.meta["units"].append(u)
    add("archive_close", "a1")
    c.meta["out"] = add("mem", "m0")
    add("afree", "a0")
    add("afree", "a1")
    c.meta.update(docs=docs, us=us, variant=variant, nul=nul, key=(d, tuple(map(str, spec)), variant), steps="".join(steps))
    return c


def split(v):
    out, cur = [], ""
    for ch in v:
        if ch == '"':
            if cur:
                out.append(cur)
            out.append('"')
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def preorder(n, out):
    st = [(None, 0, n)]
    while st:
        p, k, x = st.pop()
        out.append((p, x))
        if isinstance(x, xmlu.Node):
            for j in range(len(x.kids) - 1, -1, -1):
                st.append((x, j, x.kids[j]))


def edit(root, sel, el, at):
    """the tree with the selected nodes marked"""
    seq = []
    preorder(root, seq)
    for s in sel:
        p, x = seq[s]
        target = x
        if el:
            w = xmlu.Node(el[1], el[2], el[0], {}, [])
            if p is None:
                w.kids, x.kids = x.kids, [w]
            else:
                for j, y in enumerate(p.kids):
                    if y is x:
                        break
                else:
                    raise KeyError("node not found")
                p.kids[j] = w
                w.kids = [x]
                # children recorded with their former parent
                for t in range(len(seq)):
                    if seq[t][1] is x:
                        seq[t] = (w, x)
            if p is None:
                for t in range(len(seq)):
                    if seq[t][0] is x:
                        seq[t] = (w, seq[t][1])
            target = w
        if at:
            if isinstance(target, str):
                continue
            mark(target, at)


def mark(target, at):
    kk = (at[1], at[2])
    for v in at[3:]:
        old = target.attrs.get(kk)
        target.attrs[kk] = v if old is None or old == v else old + " " + v


class Str(str):
    """text nodes have identity"""


def identify(n):
    st = [n]
    while st:
        x = st.pop()
        x.kids = [Str(k) if isinstance(k, str) else k for k in x.kids]
        st.extend(k for k in x.kids if isinstance(k, xmlu.Node))


def inner(n):
    return xmlu.canon(n)[len(xmlu.canon(xmlu_shell(n))) - 3:]


def xmlu_shell(n):
    return xmlu.Node(n.uri, n.name, n.prefix, n.attrs, [])


OWN = ("hash", "item", "revision", "options", "tabs")


def wants(doc, items):
    """expected units from the items of the oracle: (attributes, item number, canonical content or exact text)"""
    out = []
    src = xmlu.parse(doc).root
    base = {k: v for k, v in src.attrs.items() if k[1] not in OWN and k[0] != xmlu.POS}
    for k, it in enumerate(items):
        kind, w, v = it
        if kind == "E":
            e = xmlu.parse(v).root
            if e.name == "unit":
                a = dict(base)
                a.update({("", x[1]): y for x, y in e.attrs.items() if x[1] not in OWN and x[0] != xmlu.POS})
                out.append((a, None, inner(e)))
            else:
                out.append((base, k + 1, xmlu.canon(e) + "</>"))
        elif kind == "A":
            out.append((base, k + 1, text('%s="%s"' % (w, v)) + "</>"))
        elif kind == "N":
            out.append((base, k + 1, text('xmlns%s="%s"' % (":" + w if w else "", v)) + "</>"))
        elif kind == "T":
            out.append((base, k + 1, text(v) + "</>"))
        else:
            out.append((base, k + 1, "</>"))
    return out


def text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;")


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    L = x.lines
    if x.alloc and min(x.alloc) > 0:
        return ctx.violation("leak", "applying transformations loses memory: %s bytes kept in each of four runs" % (x.alloc,), [c])
    m = c.meta
    if "badappend" in m and L[m["badappend"]] == "0":
        return ctx.violation("bad-accepted", "an invalid style sheet or schema is accepted: %s" % c.lines[m["badappend"]][:300], [c])
    for p in m["prep"]:
        if L[p] != "0":
            return ctx.violation("append", "a valid transformation is refused with status %s: %s" % (L[p], c.lines[p][:300]), [c])
    expected = []
    for j, u in enumerate(m["units"]):
        o = L[u["oracle"]]
        if o.startswith("unparsable") or o == "badsheet":
            ctx.tally("oracle_undecided")
            return
        what = "unit %d, chain %s" % (j, [l[:160] for l in (c.lines[p] for p in m["prep"])])
        if m["variant"]:
            if o == "scalar":
                ctx.tally("variant_scalar")
                return
            if o != "invalid":
                sel = [int(k) for k in o.split()[1:] if k != "o"]
                t = xmlu.parse(m["docs"][j]).root
                identify(t)
                if m["variant"][3]:
                    seq = []
                    preorder(t, seq)
                    nodes2 = [seq[int(k)][1] for k in L[u["oracle2"]].split()[1:] if k != "o"]
                    edit(t, sel, m["variant"][1], None)
                    for y in nodes2:
                        mark(y, m["variant"][2])
                    sel = []
                    ctx.tally("variants_with_two_expressions")
                elif m["variant"][1] is None:
                    seq = []
                    preorder(t, seq)
                    sel = [s for s in sel if isinstance(seq[s][1], xmlu.Node)]
                edit(t, sel, m["variant"][1], m["variant"][2])
                items = [("E", "", None)]
                want = ("units", t)
        else:
            want = o
        st = L[u["status"]]
        if o == "invalid":
            if st == "0":
                return ctx.violation("invalid-ok", "%s is invalid or stops, but applying it reports status OK" % what, [c])
            if not m["nul"] and L[u["size"]] != "0":
                return ctx.violation("invalid-units", "%s is invalid or stops, but gives %s units" % (what, L[u["size"]]), [c])
            ctx.tally("invalid_reported")
            if m["nul"]:
                expected.append(("same", j))
            ctx.seen((m["key"], j), True)
            continue
        if m["variant"]:
            exp = [variantwant(want[1], m["docs"][j])]
            n = 1
        elif o.startswith("units"):
            items = []
            for tok in o.split()[1:]:
                kind, w, v = tok.split(":", 2)
                items.append((kind, unq(w).decode(), unq(v).decode()))
            exp = wants(m["docs"][j], items)
            n = len(exp)
        else:
            exp, n = [], -1
        if m["nul"]:
            if n == 1:
                if st != "0":
                    return ctx.violation("replace-status", "%s has one unit as its result, but replacing the unit reports %s" % (what, st), [c])
                expected.append(exp[0])
            else:
                if st == "0":
                    return ctx.violation("replace-ok", "%s does not have a single unit as its result (%s), but replacing the unit reports OK" % (what, o[:200]), [c])
                expected.append(("same", j))
            ctx.seen((m["key"], j), n != 0)
            continue
        if L[u["before"]] != L[u["after"]]:
            return ctx.violation("modified", "the unit transformed is modified: %s before, %s after" % (L[u["before"]][:400], L[u["after"]][:400]), [c])
        if st != "0":
            return ctx.violation("status", "%s: status %s, result %s" % (what, st, o[:300]), [c])
        ty = L[u["type"]]
        if n >= 0:
            if ty != ("1" if n else "0") or L[u["size"]] != str(n):
                return ctx.violation("size", "%s gives %d results, the library type %s with %s units; %s" % (what, n, ty, L[u["size"]], o[:600]), [c])
            expected += exp
            ctx.tally("result_units", n)
        else:
            kind, v = o.split(" ", 1)
            g = {"bool": ("2", "bool"), "number": ("3", "number"), "string": ("4", "string")}[kind]
            if ty != g[0] or L[u[g[1]]] != v:
                return ctx.violation("scalar", "%s gives %s, the library type %s value %s" % (what, o[:300], ty, L[u[g[1]]][:300]), [c])
            ctx.tally("result_" + kind)
        ctx.seen((m["key"], j), n != 0)
    # the units in the archive they were written to
    out = unq(L[m["out"]]) if L[m["out"]] != "~" else None
    if "parsed" in m["steps"]:
        ctx.tally("results_of_parsed_units", len(expected))
        if b"omp:" in (unq(L[m["out"]]) if L[m["out"]] != "~" else b""):
            ctx.tally("results_with_openmp")
    ctx.tally("chains_" + (m["steps"] or "variant"))
    if out is None:
        return ctx.violation("out", "no archive with the results", [c])
    try:
        d = xmlu.parse(out)
    except xmlu.XmlError as e:
        return ctx.violation("ill-formed", "the archive with the results is not well-formed (%s): %s" % (e, out[:1500]), [c])
    us = xmlu.units(d.root)
    if len(us) != len(expected):
        return ctx.violation("count", "%d results written, %d expected: %s" % (len(us), len(expected), out[:1500]), [c])
    if any(":A:" in L[u["oracle"]] or " A:" in L[u["oracle"]] or " N:" in L[u["oracle"]] for u in m["units"] if not m["variant"]):
        # the order of the attributes of one element is not defined
        if sorted(inner(g) for g in us) != sorted(e[2] for e in expected if e[0] != "same") and not m["nul"]:
            return ctx.violation("attribute-nodes", "the results are %s, expected %s" % (out[:1500], [e[2] for e in expected]), [c])
        return
    for k, (g, e) in enumerate(zip(us, expected)):
        if e[0] == "same":
            e0 = xmlu.parse(m["docs"][e[1]]).root
            e = ({kk: v for kk, v in e0.attrs.items() if kk[1] not in OWN}, None, inner(e0))
        a = {kk: v for kk, v in g.attrs.items() if kk[1] not in OWN and kk[0] != xmlu.POS}
        if a != e[0]:
            return ctx.violation("attributes", "result %d has the attributes %s, expected %s" % (k, a, e[0]), [c])
        if e[1] is not None and not m["nul"] and g.get("item") != str(e[1]):
            return ctx.violation("item", "result %d has item %s, expected %s" % (k, g.get("item"), e[1]), [c])
        if e[1] is not None and g.get("hash") is not None:
            return ctx.violation("hash", "result %d, a part of a unit, has the hash of the unit, %s" % (k, g.get("hash")), [c])
        gi = inner(g)
        if gi != e[2]:
            return ctx.violation("content", "result %d is %s, expected %s" % (k, gi[:1200], e[2][:1200]), [c])


def variantwant(t, doc):
    a = {("", k[1]) if False else k: v for k, v in t.attrs.items() if k[1] not in OWN}
    return (a, None, inner(t))


def run(ctx):
    ctx.rule = RULE
    if not BODIES:
        import random
        r = random.Random("bodies%s" % ctx.seed)
        cs = []
        for i in range(120):
            c = Case("b%d" % i)
            lang = r.choice(gen.LANGS)
            c.add("acreate", "a0")
            c.add("ucreate", "u0", "a0")
            c.add("unit_set_language", "u0", q(lang))
            c.add("parse", "u0", "mem", q(gen.program(r, lang, r.choice([1, 2, 4]))))
            c.add("unit_get_srcml_inner", "u0")
            c.add("afree", "a0")
            cs.append(c)
        res = ctx.pool("full").run(cs, batch=20)
        for c in cs:
            x = res[c.name]
            if x.done and x.lines[4] != "~":
                b = unq(x.lines[4]).decode()
                if len(b) < 6000:
                    try:
                        xmlu.parse("<unit%s xmlns:omp='%s'>%s</unit>" % (NS, xmlu.OMP, b))
                        if "omp:" not in b:
                            BODIES.append(b)
                    except xmlu.XmlError:
                        pass
        ctx.tally("parsed_bodies", len(BODIES))
        # units that are transformed without having been read from a document
        cs = []
        for i in range(160):
            lang = r.choice(["C", "C++", "C++", "C#"]) if i % 2 else r.choice(gen.LANGS)
            src = gen.program(r, lang, r.choice([1, 2]))
            if lang in ("C", "C++") and r.random() < .5:
                src = "void f() {\n#pragma omp parallel for %s\nfor (;;) g();\n}\n" % r.choice(["", "private(a)", "reduction(+: s)"]) + src
            if r.random() < .3:
                src = "#define A 1\n" + src if lang != "Java" else src
            name, pos = r.choice(["", "a.cpp", "x & y"]), r.random() < .2
            c = Case("q%d" % i, parsed=(lang, name, src, pos))
            c.add("acreate", "a0")
            if pos:
                c.add("archive_enable_option", "a0", "4")
            c.add("ucreate", "u0", "a0")
            c.add("unit_set_language", "u0", q(lang))
            if name:
                c.add("unit_set_filename", "u0", q(name))
            c.add("parse", "u0", "mem", q(src))
            c.add("unit_get_srcml", "u0")
            c.add("afree", "a0")
            cs.append(c)
        res = ctx.pool("full").run(cs, batch=20)
        for c in cs:
            x = res[c.name]
            if x.done and x.lines[-2] != "~":
                d = unq(x.lines[-2]).decode()
                if len(d) < 9000:
                    PARSED.append(c.meta["parsed"] + (d,))
        ctx.tally("parsed_units", len(PARSED))
    ctx.fan(ctx.n(5000, 120000), make, judge, chunk=60, batch=40, tag="t")
