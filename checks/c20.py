"""C20: supported constructs are marked with the documented elements, whatever the layout, names, options and route."""
import gen, grammar, xmlu
from vrun import Case, q, unq

RULE = ("random programs are generated together with their expected markup (declarations, functions, classes, statements, expressions, names, calls, ternaries, generics, ...), laid "
        "out in one of several styles (minimal white space, one statement per line, free white space, comments between tokens, directives between statements, CRLF), parsed through random "
        "routes and options, and the markup without white space, comments, directives and positions must equal the expected markup; non-trivial: distinct (language, expected markup)")

LANGS = ["C", "C++", "Java", "C#"]
CPP = ["#define AA 1", "#include <a.h>", "#pragma once", "#undef AA", "#define F(x) (x + 1)", "#error not here", "#line 12"]
CSCPP = ["#define AA", "#pragma warning", "#undef AA"]
HEAD = '<unit xmlns="http://www.srcML.org/srcML/src" xmlns:cpp="http://www.srcML.org/srcML/cpp" xmlns:pos="http://www.srcML.org/srcML/position">'

# constructs that the parser gets wrong (known findings): key, language, source, part of the canonical form that must be there
PROBES = [
    ("lambda-in-ternary-condition", "C++", "void f() { x = [](int a) { return a; } ? b : c; }", "<parameter_list>(<parameter><decl><type>"),
    ("complement-in-ternary-condition", "C++", "void f() { x = ~a ? b : c; }", "<ternary><condition><expr><operator>~</>"),
    ("ternary-after-initializer-list", "C", "void f() { int a[] = { 1, 2 }, b = c ? d : e; }", "<ternary>"),
    ("anonymous-class-in-condition", "Java", "class A { void f() { if (g(new B() { int x; })) { } } }", "}</></></></>)</></></>)</><block>{<block_content></>}</></></></>}"),
    ("member-call-like-constructor", "C#", "class A { void f() { a.a(); } }", "<expr_stmt><expr><call>"),
    ("event-field", "C#", "class A { public event E e; }", "<decl>"),
    ("noexcept-operand", "C++", "void f() { g(noexcept(a)); }", "<name>a</></></>)</></></></>)</></></>;</>"),
    ("lambda-in-index", "Java", "class A { void f() { b = c[g((u, v) -> { return u; })]; } }", "<return>return"),
    ("method-array-result", "Java", "class A { int f()[] { return a; } }", "<function><type>"),
]


def make(r, i, ctx):
    lang = r.choice(LANGS)
    g = grammar.Grammar(r, lang, free=r.random() < .3)
    t = g.program(r.choice([1, 2, 2, 3, 3, 4]))
    style = r.choice(["tight", "line", "loose", "loose", "comments", "comments"])
    cpp = [] if r.random() < .6 or lang == "Java" else CSCPP if lang == "C#" else CPP
    opt = (64 if r.random() < .2 else 0) | (4 if r.random() < .25 else 0)
    if lang in ("C", "C++"):
        opt |= r.choice([8, 8, 8 | 32, 8 | 16])
    elif lang == "C#":
        opt |= 8
    src = grammar.layout(r, grammar.tokens(t), style, cpp, not opt & 16)
    if len(src) > 60000:
        return None
    crlf = r.random() < .15
    blob = src.replace("\n", "\r\n") if crlf else src
    c = Case("c" + i, src=src, lang=lang, want=grammar.canon(t), style=style, used=g.used, opt=opt)
    c.add("acreate a0").add("archive_enable_option a0", opt).add("archive_set_src_encoding a0 'UTF-8")
    if r.random() < .3:
        c.add("archive_set_tabstop a0", r.choice([1, 2, 4, 8]))
    c.add("ucreate u0 a0").add("unit_set_language u0", q(lang))
    route = r.random()
    if route < .5:
        c.add("parse u0 mem", q(blob))
    elif route < .7:
        c.add("parse u0 io", q(blob), "c=%d" % r.choice([1, 2, 3, 7, 100, 4096]))
    elif route < .85:
        c.add("parse u0", r.choice(["fd", "FILE", "file"]), q(blob))
    else:       # a unit that has already held something else
        c.add("parse u0 mem", q(r.choice(["class X {", "int f( {", "for (;;", "#if A\n", "template <", "\"open"])))
        c.add("parse u0 mem", q(blob))
    c.add("unit_get_srcml_inner u0")
    return c


def tree(markup):
    return xmlu.parse(HEAD.encode() + (markup if isinstance(markup, bytes) else markup.encode("utf-8", "surrogateescape")) + b"</unit>")


def first(a, b):
    k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return "expected ...%s\ngot      ...%s" % (b[max(0, k - 140):k + 160], a[max(0, k - 140):k + 160])


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    got = unq(x.lines[-1])
    m = c.meta
    try:
        d = tree(got)
    except xmlu.XmlError:
        ctx.violation("not_xml", "markup of %s source is not XML" % m["lang"], [c])
        return
    a = grammar.actual(d.root)
    ctx.seen((m["lang"], m["want"]), len(m["want"]) > 60)
    ctx.tally("style " + m["style"])
    ctx.tally("elements compared", m["want"].count("<") // 2)
    for k, v in m["used"].items():
        ctx.tally("%s: %s" % (m["lang"], k), v)
    if a != m["want"]:
        ctx.violation("markup_" + m["lang"], first(a, m["want"]), [c], extra=m["src"])
    elif len(m["src"]) < 200:
        ctx.sample({"language": m["lang"], "source": m["src"], "markup": a[:400]})


def probe(key, lang, src, part):
    c = Case("probe_" + key, key=key, src=src, lang=lang, part=part)
    c.add("acreate a0").add("ucreate u0 a0").add("unit_set_language u0", q(lang)).add("parse u0 mem", q(src)).add("unit_get_srcml_inner u0")
    return c


def judge_probe(ctx, c, x):
    if ctx.crash(c, x):
        return
    got = unq(x.lines[-1])
    try:
        a = grammar.actual(tree(got).root)
    except xmlu.XmlError:
        a = "not XML"
    if c.meta["part"] not in a:
        ctx.violation("probe", "%s source %r is marked %s" % (c.meta["lang"], c.meta["src"], a[:400]), [c], key=c.meta["key"])


def run(ctx):
    ctx.rule = RULE
    P = [probe(*p) for p in PROBES]
    R = ctx.pool("full").run(P)
    for c in P:
        judge_probe(ctx, c, R.get(c.name))
    ctx.fan(ctx.n(24000, 400000), make, judge)
