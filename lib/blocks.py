"""Self-contained pieces of API use (each with its own archives, units, buffers), that print everything they observe.
Used to compare the same piece alone, after other pieces, interleaved with them (C10) and in threads (C11)."""
import gen, xmlu
from vrun import Case, q


class S(str):
    """a slot of a block: kind letter and number"""
    def __new__(cls, kind, n):
        return str.__new__(cls, "%s%d" % (kind, n))

    def __init__(self, kind, n):
        self.kind, self.n = kind, n


SIZE = {"a": 8, "u": 30, "r": 2, "b": 16, "m": 8}


def A(n):
    return S("a", n)


def U(n):
    return S("u", n)


def R(n):
    return S("r", n)


def M(n):
    return S("m", n)


class Block:
    def __init__(self, kind):
        self.kind, self.ops, self.same = kind, [], []

    def add(self, *t):
        self.ops.append(t)
        return len(self.ops) - 1

    def render(self, base=0):
        out = []
        for t in self.ops:
            out.append(" ".join("%s%d" % (x.kind, x.n + base * SIZE[x.kind]) if isinstance(x, S) else str(x) for x in t))
        return out


def settings(r, b, a):
    """random settings of an archive"""
    for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
        k = r.randrange(11)
        if k == 0:
            b.add("archive_set_xml_encoding", a, q(r.choice(["UTF-8", "ISO-8859-1", "UTF-16", "US-ASCII", "bogus"])))
        elif k == 1:
            b.add("archive_set_src_encoding", a, q(r.choice(["UTF-8", "ISO-8859-1", "UTF-16", "bogus"])))
        elif k == 2:
            b.add("archive_enable_option", a, r.choice([4, 8, 16, 32, 64, 2]))
        elif k == 3:
            b.add("archive_disable_option", a, r.choice([4, 8, 16, 32, 64, 2]))
        elif k == 4:
            b.add("archive_set_tabstop", a, r.choice([1, 2, 4, 5, 16]))
        elif k == 5:
            b.add("archive_register_namespace", a, q(r.choice(["s", "x", "cpp", "pp", "p", "y"])), q(r.choice([xmlu.SRC, xmlu.CPP, xmlu.POS, xmlu.ERR, xmlu.OMP, "http://a.b/c"])))
        elif k == 6:
            b.add("archive_set_language", a, q(r.choice(gen.LANGS)))
        elif k == 7:
            b.add("archive_register_file_extension", a, q(r.choice(["cpp", "c", "foo", "h"])), q(r.choice(gen.LANGS)))
        elif k == 8:
            b.add("archive_set_" + r.choice(["url", "version"]), a, q(r.choice(["v1", "a<b&\"", "\u00e9"])))
        elif k == 9:
            b.add("archive_set_processing_instruction", a, q("pi"), q(r.choice(["a=\"b\"", "x"])))
        else:
            b.add(r.choice(["archive_enable_hash", "archive_disable_hash", "archive_enable_solitary_unit", "archive_disable_solitary_unit"]), a)


def state(b, a):
    for g in ("url", "version", "src_encoding", "xml_encoding", "language", "options", "tabstop", "namespace_size", "processing_instruction_target", "processing_instruction_data", "revision"):
        b.add("archive_get_" + g, a)
    for u in (xmlu.SRC, xmlu.CPP, xmlu.POS, xmlu.ERR, xmlu.OMP):
        b.add("archive_get_prefix_from_uri", a, q(u))
    b.add("archive_check_extension", a, q("a.h"))
    b.add("archive_error_number", a)


def source(r, lang, cap):
    while True:
        t = gen.anytext(r, lang)
        if len(t) <= cap:
            return t


FAULT = ["null", "badfd", "nullio", "nullfile"]


def parse(r, b, u, t, channels):
    k = r.choice(channels)
    b.add("parse", u, k, q(t))
    for g in ("srcml", "srcml_outer", "srcml_inner", "hash", "loc", "language", "src_encoding"):
        if r.random() < .6:
            b.add("unit_get_" + g, u)


def p_parse(r, cap=3000, channels=("mem", "mem", "file", "FILE", "fd", "io")):
    """parse units of an archive and write them"""
    b = Block("parse")
    a = A(0)
    b.add("acreate", a)
    settings(r, b, a)
    state(b, a)
    b.add("wopen", a, "mem", M(0))
    n = r.choice([1, 1, 2, 3, 5])
    prev = None
    for j in range(n):
        lang = r.choice(gen.LANGS)
        u = U(j)
        b.add("ucreate", u, a)
        if r.random() < .93:
            b.add("unit_set_language", u, q(lang))
        if r.random() < .5:
            b.add("unit_set_src_encoding", u, q(r.choice(["UTF-8", "UTF-8", "ISO-8859-1", "UTF-16", "bogus"])))
        if r.random() < .2:
            b.add("unit_set_eol", u, r.choice([0, 1, 2, 3]))
        if r.random() < .4:
            b.add("unit_set_" + r.choice(["filename", "version", "timestamp"]), u, q(r.choice(["f.cpp", "a/b.java", "\u00e9"])))
        if r.random() < .06:
            k = r.choice(FAULT)
            b.add("parse", u, k, -1 if k == "badfd" else q("a"))
        if prev is not None and r.random() < .15:
            t = prev
        else:
            t = prev = source(r, lang, cap)
        parse(r, b, u, t, channels)
        if r.random() < .15:      # once more: identical
            x = b.add("unit_get_srcml", u)
            b.add("parse", u, "mem", q(t))
            y = b.add("unit_get_srcml", u)
            if b.ops[x - 1][0] != "zz":
                b.same.append((x, y))
        b.add("archive_write_unit", a, u)
        if r.random() < .2:
            b.add("unit_get_srcml_outer", u)
        if r.random() < .5:
            b.add("ufree", u)
    b.add("archive_close", a)
    b.add("mem", M(0))
    state(b, a)
    b.add("afree", a)
    return b


DOC = []


def document(r):
    """a srcML document, possibly damaged"""
    pre = r.choice(["", "", "src:", "x:"])
    ns = 'xmlns%s="%s"' % (":" + pre[:-1] if pre else "", xmlu.SRC)
    cpp = r.choice(["cpp", "pp"])

    def body(k):
        e = ['<%sexpr_stmt><%sexpr><%sname>a%d</%sname></%sexpr>;</%sexpr_stmt>' % (pre, pre, pre, k, pre, pre, pre),
             '<%scomment type="line">// \u00e9 &lt;&amp;</%scomment>' % (pre, pre), "\n", "x", '<%sescape char="0x1b"/>' % pre,
             '<%s:pragma>#<%s:directive>pragma</%s:directive> a</%s:pragma>' % (cpp, cpp, cpp, cpp)]
        return "".join(r.choice(e) for _ in range(r.choice([0, 1, 3, 8, 40])))
    n = r.choice([0, 1, 2, 4, 9])
    us = "\n\n".join('<%sunit xmlns:%s="%s" revision="1.0.0" language="%s" filename="f%d"%s>%s</%sunit>' % (pre, cpp, xmlu.CPP, r.choice(gen.LANGS), k, r.choice(["", ' hash="0a"', ' item="1"', ' loc="2"']), body(k), pre) for k in range(n))
    if r.random() < .25:
        d = '<%sunit %s xmlns:%s="%s" revision="1.0.0" language="C++"%s>%s</%sunit>' % (pre, ns, cpp, xmlu.CPP, r.choice(["", ' url="u"', ' filename="z"']), body(0), pre)
    else:
        d = '<%sunit %s revision="1.0.0"%s>\n\n%s\n\n</%sunit>' % (pre, ns, r.choice(["", ' url="u"', ' version="v"', ' xmlns:pos="%s" pos:tabs="4"' % xmlu.POS, ' options="CPP_TEXT_ELSE"']), us, pre)
    d = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n%s\n' % (r.choice(["UTF-8", "UTF-8", "ISO-8859-1"]), d)
    k = r.random()
    if k < .2:
        d = d[:r.randrange(len(d) + 1)]
    elif k < .3:
        p = r.randrange(len(d))
        d = d[:p] + r.choice(["<", ">", "&", "</x>", "\x01", "<a>", "\""]) + d[p:]
    elif k < .33:
        d = r.choice(["", "x", "<a/>", "<!DOCTYPE a>", "\x00\x01"])
    return d


def p_read(r, cap=0, channels=("mem", "mem", "file", "FILE", "fd", "io")):
    b = Block("read")
    a = A(0)
    d = document(r)
    b.add("acreate", a)
    if r.random() < .3:
        settings(r, b, a)
    b.add("ropen", a, r.choice(channels), q(d))
    state(b, a)
    n = r.choice([0, 1, 2, 3, 6, 12])
    live = []
    for j in range(n):
        if r.random() < .2:
            b.add("archive_skip_unit", a)
            continue
        u = U(j)
        b.add("read", u, a)
        live.append(u)
        v = r.choice(live)
        for g in ("filename", "language", "hash", "loc", "srcml", "srcml_outer", "srcml_inner", "version", "timestamp"):
            if r.random() < .4:
                b.add("unit_get_" + g, v)
        if r.random() < .5:
            b.add("unparse", v, "mem", M(0))
            b.add("mem", M(0))
        if r.random() < .2:
            live.remove(v)
            b.add("ufree", v)
    b.add("archive_error_number", a)
    if r.random() < .7:
        b.add("archive_close", a)
    b.add("afree", a)
    return b


XSL = """<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform" xmlns:s="%s" xmlns:str="http://exslt.org/strings" xmlns:set="http://exslt.org/sets" xmlns:math="http://exslt.org/math">
<xsl:output method="%s"/><xsl:param name="p" select="'d'"/>%s</xsl:stylesheet>"""
SHEETS = ['<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template>',
          '<xsl:template match="/"><xsl:value-of select="$p"/><xsl:value-of select="count(//s:name)"/></xsl:template>',
          '<xsl:template match="/"><xsl:for-each select="str:tokenize(string(.), \' \')"><xsl:value-of select="."/>|</xsl:for-each><xsl:value-of select="math:max(//*/@position)"/></xsl:template>',
          '<xsl:template match="/"><s:unit language="Java" x="{$p}"><xsl:copy-of select="set:distinct(//s:name)"/></s:unit></xsl:template>',
          '<xsl:template match="/"><xsl:message terminate="yes">no</xsl:message></xsl:template>',
          '<xsl:template match="s:name"/>', '<xsl:template match="/"/>', '<xsl:template match="["/>', '<xsl:template/>']
ANYRNG = """<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><ref name="any"/></start><define name="any"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name="any"/></choice></zeroOrMore></element></define></grammar>"""


def sheet(r):
    if r.random() < .08:
        return r.choice(["", "<a/>", "<xsl", "<s:unit xmlns:s='%s'/>" % xmlu.SRC])
    return XSL % (xmlu.SRC, r.choice(["xml", "text"]), r.choice(SHEETS))


XP = ["//@*", "//src:unit | //src:name", "//namespace::*", "//zz:a/b", "/", "string(/*", "//src:comment", "str:tokenize('a b')", "//src:name", "count(//src:name)", "string(//src:name)", "//src:unit", "count(//*)>3", "//zz:a", "//*[", "", "//src:expr/src:name", "//cpp:*", "/src:unit/@filename", "//text()"]


def good(r):
    while True:
        d = document(r)
        try:
            xmlu.parse(d)
            if "<unit" in d:
                return d
        except (xmlu.XmlError, TypeError, ValueError):
            pass


def p_xpath(r, cap=0, channels=("mem",)):
    b = Block("xpath")
    a = A(0)
    b.add("acreate", a)
    b.add("ropen", a, r.choice(channels), q(good(r)))
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < .6:
            b.add("append_transform_xpath", a, q(r.choice(XP)))
        elif k < .65:
            b.add("append_transform_xpath_element", a, q(r.choice(XP)), q("z"), q("http://z"), q("el"))
        elif k < .7:
            b.add("append_transform_xpath_attribute", a, q(r.choice(XP)), q("z"), q("http://z"), q("at"), q("v"))
        elif k < .9:
            b.add("xslt", a, "mem", q(sheet(r)))
            if r.random() < .4:
                b.add("append_transform_stringparam", a, q("p"), q(r.choice(["v", "a'b", 'c"d', "\"'"])))
        else:
            b.add("relaxng", a, "mem", q(r.choice([ANYRNG, ANYRNG.replace("<anyName/>", "<name>foo</name>"), "<grammar/>", "<bad", ""])))
    for j in range(3):
        b.add("read", U(0), a)
        b.add("apply", a, U(0), R(0))
        b.add("transform_get_type", R(0))
        b.add("transform_get_unit_size", R(0))
        b.add("tunit", U(1), R(0), 0)
        b.add("unit_get_srcml", U(1))
        b.add("transform_get_string", R(0))
        b.add("transform_get_number", R(0))
        b.add("transform_get_bool", R(0))
        b.add("tfree", R(0))
        b.add("ufree", U(0))
        if r.random() < .2:
            b.add("clear_transforms", a)
    b.add("afree", a)
    return b


def p_write(r, cap=0, channels=()):
    """a unit built with the write functions"""
    b = Block("write")
    a = A(0)
    b.add("acreate", a)
    settings(r, b, a)
    b.add("wopen", a, "mem", M(0))
    for j in range(r.choice([1, 2, 3])):
        u = U(j)
        b.add("ucreate", u, a)
        b.add("unit_set_language", u, q("C++"))
        b.add("write_start_unit", u)
        depth = 0
        for _ in range(r.randint(0, 12)):
            k = r.randrange(4)
            if k == 0:
                b.add("write_start_element", u, "~", q(r.choice(["name", "expr", "if"])), "~")
                depth += 1
                if r.random() < .5:
                    b.add("write_attribute", u, "~", q("type"), "~", q("a<b&\""))
            elif k == 1 and depth:
                b.add("write_end_element", u)
                depth -= 1
            else:
                b.add("write_string", u, q(r.choice(["a", "<&>", "\u00e9\n", " "])))
        for _ in range(depth):
            b.add("write_end_element", u)
        b.add("write_end_unit", u)
        b.add("unit_get_srcml", u)
        b.add("archive_write_unit", a, u)
        if r.random() < .3:
            b.add("unparse", u, "mem", M(1))
            b.add("mem", M(1))
    b.add("archive_close", a)
    b.add("mem", M(0))
    b.add("afree", a)
    return b


def p_clone(r, cap=2000, channels=()):
    """a clone behaves as the original did when it was cloned, whatever happens to either"""
    b = Block("clone")
    b.add("acreate", A(0))
    settings(r, b, A(0))
    lang = r.choice(gen.LANGS)
    t = source(r, lang, cap)

    def use(a, u, m):
        o = []
        x = len(b.ops)
        state(b, a)
        b.add("wopen", a, "mem", m)
        b.add("ucreate", u, a)
        b.add("unit_set_language", u, q(lang))
        b.add("parse", u, "mem", q(t))
        b.add("archive_write_unit", a, u)
        b.add("archive_close", a)
        b.add("mem", m)
        return x, len(b.ops)
    b.add("aclone", A(1), A(0))
    b.add("aclone", A(2), A(1))
    if r.random() < .5:
        b.add("aclone", A(3), A(0))
        settings(r, b, A(3))
        use(A(3), U(3), M(3))
        b.add("afree", A(3))
    o0 = use(A(0), U(0), M(0))
    if r.random() < .5:
        settings(r, b, A(0))
    if r.random() < .5:
        b.add("ufree", U(0))
        b.add("afree", A(0))
    for k in (1, 2):
        o = use(A(k), U(k), M(k))
        for x, y in zip(range(*o0), range(*o)):
            b.same.append((x, y))
    for k in (1, 2):
        b.add("afree", A(k))
    return b


def p_uclone(r, cap=2000, channels=()):
    """a clone of a unit has its settings (not the contents), whatever happens to either"""
    b = Block("uclone")
    a = A(0)
    b.add("acreate", a)
    settings(r, b, a)
    lang = r.choice(gen.LANGS)
    t = source(r, lang, cap)
    if r.random() < .5:
        b.add("ropen", a, "mem", q(good(r)))
        b.add("read", U(0), a)
    else:
        b.add("ucreate", U(0), a)
        b.add("unit_set_language", U(0), q(lang))
    for _ in range(r.randint(0, 6)):
        k = r.choice(["filename", "version", "timestamp", "language", "src_encoding", "eol", "eol"])
        b.add("unit_set_" + k, U(0), {"language": q(r.choice(gen.LANGS)), "src_encoding": q(r.choice(["UTF-8", "ISO-8859-1", "UTF-16"])), "eol": r.choice([0, 1, 2, 3])}.get(k, q(r.choice(["a.cpp", "b c", "<&\"", "\u00e9", ""]))))
    if r.random() < .3:
        b.add("parse", U(0), "mem", q(source(r, lang, cap)))

    def use(u):
        x = len(b.ops)
        for g in ("filename", "version", "timestamp", "language", "src_encoding", "eol", "hash"):
            b.add("unit_get_" + g, u)
        if built:
            b.add("write_start_unit", u)
            b.add("write_start_element", u, "~", q("name"), "~")
            b.add("write_string", u, q("a<\n\u00e9"))
            b.add("write_end_unit", u)
        else:
            b.add("parse", u, "mem", q(t))
        for g in ("srcml", "srcml_outer", "srcml_inner", "hash", "loc", "language", "src_encoding", "filename"):
            b.add("unit_get_" + g, u)
        b.add("unparse", u, "mem", M(1))
        b.add("mem", M(1))
        return x, len(b.ops)
    built = r.random() < .4
    # the contents are not cloned, so that they have to be replaced
    b.add("unit_set_language", U(0), q(r.choice(gen.LANGS)))
    b.add("unit_set_src_encoding", U(0), q(r.choice(["UTF-8", "ISO-8859-1", "UTF-16"])))
    b.add("uclone", U(1), U(0))
    b.add("uclone", U(2), U(1))
    if r.random() < .5:
        b.add("uclone", U(3), U(0))
        b.add("unit_set_language", U(3), q("Java"))
        b.add("unit_set_filename", U(3), q("other"))
        b.add("parse", U(3), "mem", q("int other;"))
    o0 = use(U(0))
    if r.random() < .3:
        b.add("unit_set_filename", U(0), q("later"))
    if r.random() < .5:
        b.add("ufree", U(0))
    for u in (U(1), U(2)):
        for x, y in zip(range(*o0), range(*use(u))):
            b.same.append((x, y))
    b.add("afree", a)
    return b


KINDS = [p_parse, p_parse, p_parse, p_read, p_read, p_xpath, p_write, p_clone, p_uclone]


def block(r, **kw):
    return r.choice(KINDS)(r, **kw)
