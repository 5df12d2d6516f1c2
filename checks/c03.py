"""C03: no source input crashes, corrupts memory or hangs the parser."""
import gen, vbuild
from vrun import Case, Pool, q, unq

RULE = ("hostile byte strings (random bytes, encoded programs with damaged bytes, truncated multi-byte sequences, token soup, control characters, "
        "long and repeated shapes) x languages x options x source encodings x input channels, parsed under ASan+UBSan with a time limit; a fixed "
        "control text parsed before and after on the same archive must give the same srcML, and repeated runs must not grow the heap; "
        "non-trivial: the hostile text has at least two tokens or an invalid byte, counted as distinct byte strings")
ENC = ["UTF-8"] * 5 + ["ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "windows-1252", "SHIFT_JIS", "GB18030", "KOI8-R", "us-ascii", "UTF16", None, "EUC-JP", "UTF-7", "ISO-2022-JP"]
CONTROL = {"C": "int f(int a[]) {\n#if A\n  return a[0] + \"x\";\n#else\n}\n", "C++": "template <class T> class A : public B { int f(T<a> x) { return x ? y : z; } };\n// c\n",
           "C#": "using A; class B { int P { get; set; } void M() { var x = from a in b select a; } }\n",
           "Java": "package a; @X public class B<T> extends C { int f() { try { g(); } catch (E e) { } } }\n",
           "Objective-C": "@interface A : B { int x; }\n- (int) f: (int) a g: (int) b;\n@end\nint main() { [a b: c]; }\n"}
SHAPES = ["{", "}", "if (a) ", "else ", "case a: ", "!", "*", "&", "-", "a.", "a::", "a->", "a,", "a;", "a ", "\n", "\n#if A\n", "\n#endif\n", "\n#if 0\n", "\n#else\n", "\n#elif x\n",
          "/*", "*/", "//", "\"", "'", "\\", "\\\n", "#", "#define a b\n", "class a { ", "struct ", "enum a {", "namespace a { ", "template ", "typedef ", "for (;;) ", "while (a) ", "do ",
          "switch (a) { ", "try { ", "catch (...) { ", "return ", "a = ", "a + ", "x ? ", "? : ", "new ", "delete ", "operator ", "a:", "public: ", "extern \"C\" { ", "@", "@a ", "[a ", "lambda => ",
          ") ", "] ", "> ", "/** ", "*", "0x", "1.", "1e+", "L\"", "R\"(", "u8R\"x(", "asm ", "using ", "goto ", "@interface ", "@end ", "^", "~", "...", "throw ", "sizeof ", "decltype ", "auto ",
          "\x01", "\x7f", "\u00e9", "\u20ac", "int a", "int a;", "void f() { ", "#pragma omp a\n", "#include <a\n", "#line\n", "friend ", "default: ", "import a;", "int ", "__attribute__ ", "foreach ", "final "]


def damage(r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 8)):
        i = r.randrange(len(b) + 1)
        k = r.randrange(6)
        if k == 0 and b:
            b[i % len(b)] = r.randrange(256)
        elif k == 1:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.randint(1, 6)))
        elif k == 2:
            del b[i:i + r.randint(1, 3)]
        elif k == 3:
            b[i:i] = r.choice([b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\x00", b"\xd8\x00", b"\xfc\x80"])
        elif k == 4:
            del b[i:]
        else:
            b[0:0] = r.choice([b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\xef\xbb", b"\xff", b"\xff\xfe\0\0", b"\xfe"])
    return bytes(b)


def depth_ok(b):
    """the same bound on nesting as gen.tame, on the text the parser will see"""
    return gen.tame(b.replace(b"\0", b"").decode("latin-1"), "C") == b.replace(b"\0", b"").decode("latin-1")


def hostile(r, lang):
    k = r.random()
    if k < .12:
        n = r.choice([0, 1, 2, 3, 5, 20, 200, 1023, 1024, 1025, 3000])
        al = r.choice([range(256), range(128), [0, 1, 10, 13, 32, 40, 59, 92, 34, 39, 47, 42, 255, 254, 0x80, 0xc3, 0xe2, 0xf0]])
        return gen.tame(bytes(r.choice(al) for _ in range(n)).decode("latin-1"), lang).encode("latin-1")
    if k < .22:
        s = r.choice(SHAPES)
        t = r.choice(SHAPES) if r.random() < .5 else ""
        n = r.choice([3, 20, 60, 300])
        w = gen.tame((s + t) * n, lang)
        if r.random() < .4:
            w += gen.tame(gen.text(r, lang), lang)
        return w.encode()
    if k < .30:
        # bracket-balanced random tails and heads
        return gen.tame("".join(r.choice(gen.COMMON_TOK) + r.choice(["", " "]) for _ in range(r.randint(1, 40))), lang).encode()
    t = gen.anytext(r, lang)
    e = r.choice(["utf-8", "utf-8", "utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin-1", "utf-32", "gb18030", "shift_jis"])
    b = t.encode(e, "replace")
    if e not in ("utf-8", "latin-1") and len(b) > 2400:
        b = b[:r.randint(2000, 2400)]      # one long statement of stray names costs quadratic time
    if r.random() < .6:
        b = damage(r, b)
        if not depth_ok(b):
            b = gen.tame(b.decode("latin-1"), lang).encode("latin-1")
    return b


def parse_op(r, u, b):
    k = r.choice(["mem", "mem", "file", "fd", "io", "ionc", "FILE"])
    pl = ""
    if k in ("io", "ionc"):
        pl = " c=" + ",".join(str(r.choice([1, 2, 3, 4, 7, 100, 1023, 1024, 4096])) for _ in range(r.randint(1, 3)))
    return "parse %s %s %s%s" % (u, k, q(b), pl)


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    b = hostile(r, lang)
    c = Case("c" + i, lang=lang, data=b, leak=r.random() < .12)
    enc = r.choice(ENC)
    opt = gen.options(r)
    c.meta.update(enc=enc, opt=opt)
    c.add("acreate a0").add("archive_set_language a0", q(lang)).add("archive_enable_option a0", opt)
    if enc:
        c.add("archive_set_src_encoding a0", q(enc))
    if r.random() < .3:
        c.add("archive_set_tabstop a0", r.choice([1, 2, 8, 60]))
    ctl = CONTROL[lang]
    c.meta["ctl"] = []
    c.add("ucreate u0 a0").add("unit_set_src_encoding u0 'UTF-8").add("parse u0 mem", q(ctl))
    c.meta["ctl"].append(len(c.lines))
    c.add("unit_get_srcml u0")
    c.add("ucreate u1 a0")
    c.meta["st"] = len(c.lines)
    c.lines.append(parse_op(r, "u1", b))
    c.add("unit_get_srcml u1").add("unit_get_loc u1").add("unit_get_hash u1")
    if r.random() < .3:
        # the unit that met the input may be parsed again
        c.add("unit_set_src_encoding u1 'UTF-8").add("parse u1 mem", q(ctl))
        c.meta["ctl"].append(len(c.lines))
        c.add("unit_get_srcml u1")
    if r.random() < .3:
        c.add("wopen a0 mem m0").add("archive_write_unit a0 u1").add("archive_close a0").add("mem m0")
    c.add("ucreate u2 a0").add("unit_set_src_encoding u2 'UTF-8").add("parse u2 mem", q(ctl))
    c.meta["ctl"].append(len(c.lines))
    c.add("unit_get_srcml u2")
    return c


def judge(ctx, c, x):
    m = c.meta
    ctx.seen(m["data"], nontrivial=len(m["data"].split()) > 1 or any(ch > 127 or ch < 32 for ch in m["data"]))
    ctx.tally("enc_%s" % m["enc"])
    if len(m["data"]) > 10:
        ctx.sample({"lang": m["lang"], "enc": m["enc"], "options": m["opt"], "bytes": repr(m["data"][:160])})
    if ctx.crash(c, x):
        return
    tag = "lang %s enc %s options %d bytes %r" % (m["lang"], m["enc"], m["opt"], m["data"][:500])
    if getattr(x, "slow", False):
        ctx.tally("slow")
    st = x.lines[m["st"]].split()[0]
    ctx.tally("status_" + st)
    if st != "0":
        ctx.violation("status", "parsing ended with status %s (%s)" % (st, tag), [c])
        return
    got = [x.lines[k] for k in m["ctl"]]
    # a unit keeps its own language and the archive's options: the control text must be marked up the same
    if len(set(got)) != 1 or got[0] == "~":
        ctx.violation("control", "a control text is marked up differently after the input: %s\n%s" % (tag, "\n".join(str(unq(g))[:700] for g in got)), [c])
        return
    if c.leak:
        ctx.tally("leak_runs")
        if x.alloc and min(x.alloc) > 0:
            ctx.violation("leak", "allocated bytes grow with every repetition: %r (%s)" % (x.alloc, tag), [c])
        elif x.fds:
            ctx.violation("descriptors", "%d descriptors left open (%s)" % (x.fds, tag), [c])


# shapes whose cost must stay proportionate: (text, copies) in one large repetition
BIG = [("{", 3000), ("}", 20000), ("if (a) ", 2000), ("if (a) b; else ", 1500), ("a;\n", 20000), ("a ", 4000), ("case a: ", 2000), ("!", 4000), ("a + ", 900), ("a.", 3000), ("a::", 1500),
       ("\n#if A\n", 2000), ("\n#if A\nx\n#else\n", 1500), ("\n#if 0\nx\n", 2000), ("\n#endif\n", 1200), ("\\\n", 5000), ("\"", 4001), ("'", 4001), ("/*", 2500), ("//", 20000), ("\n", 60000), ("\r", 60000),
       ("x,", 4000), ("int a;", 4000), ("class a { ", 600), ("namespace a { ", 800), ("#define a b\n", 800), ("while (a) ", 1500), ("do ", 1500), ("for (;;) ", 1500), ("switch (a) { ", 800),
       ("try { ", 800), ("else ", 4000), (") ", 20000), ("] ", 20000), ("> ", 4000), ("\x01", 8000), ("\u20ac", 8000), ("a = ", 3000), ("x ? ", 1000), (": ", 4000), ("return ", 4000), ("\t", 40000),
       ("f();\n", 8000), ("@", 4000), ("#", 2500), ("goto ", 4000), ("template ", 2000), ("struct ", 3000), ("int ", 3000), ("public: ", 3000), ("* ", 4000), ("& ", 4000), ("... ", 4000), ("typedef ", 3000)]




# the inputs of the known finding: the parser's nested lookahead doubles its cost with every level
PROBES = [("lookahead-operator-csharp", "C#", "operator a::" * 40), ("lookahead-operator-cpp", "C++", "operator " * 60),
          ("lookahead-brackets-c", "C", "x>(^[" * 30), ("lookahead-parameters-c", "C", "int main(i\n" * 40)]


def run(ctx):
    ctx.rule = RULE
    P = Pool(vbuild.build("full", quiet=True), workers=4)
    P.max_hangs = 1000
    cases = []
    for key, lang, text in PROBES:
        c = Case("probe_" + key, limit=5, key=key)
        c.add("acreate a0").add("archive_set_language a0", q(lang)).add("archive_set_src_encoding a0 'UTF-8").add("ucreate u0 a0").add("parse u0 mem", q(text))
        cases.append(c)
    R = P.run(cases, batch=1, confirm_hang=False)
    for c in cases:
        x = R[c.name]
        if x.crash:
            ctx.violation("probe-" + c.meta["key"] if x.crash["kind"] == "hang" else "crash-probe", "%s: %s" % (x.crash["kind"], c.name), [c],
                          key=c.meta["key"] if x.crash["kind"] == "hang" else None)
    ctx.fan(ctx.n(16000, 900000), make, judge)
    # large repetitions
    P = ctx.pool("full")
    cases = []
    langs = gen.LANGS if ctx.tier == "thorough" else None
    for k, (s, n) in enumerate(BIG):
        for lang in (langs or [gen.LANGS[(k + ctx.seed) % 5]]):
            for pre in (["", "int f() { "] if ctx.tier == "thorough" else [["", "int f() { "][(k + ctx.seed) % 2]]):
                c = Case("big%d_%s_%d" % (k, lang.replace("#", "s").replace("+", "p"), len(pre)), lang=lang, shape=pre + s, copies=n, limit=25)
                c.add("acreate a0").add("archive_set_language a0", q(lang)).add("archive_set_src_encoding a0 'UTF-8")
                c.add("ucreate u0 a0").add("parse u0 mem", q(pre + s * n)).add("unit_get_loc u0")
                cases.append(c)
    R = P.run(cases, batch=4)
    for c in cases:
        x = R.get(c.name)
        ctx.seen(("big", c.meta["shape"], c.meta["lang"]))
        ctx.tally("large_repetitions")
        if ctx.crash(c, x, "large"):
            continue
        if x.lines[4] != "0":
            ctx.violation("large-status", "%d x %r in %s: status %s" % (c.meta["copies"], c.meta["shape"], c.meta["lang"], x.lines[4]), [c])
