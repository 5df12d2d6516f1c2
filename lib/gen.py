"""Workload generators (everything is derived from one random.Random)."""
import gzip, json, os, random, re, string

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANGS = ["C", "C++", "C#", "Java", "Objective-C"]
_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        with gzip.open(os.path.join(VERIF, "corpus", "units.json.gz")) as f:
            _corpus = [tuple(x) for x in json.loads(f.read().decode())]
    return _corpus


def by_lang():
    d = {}
    for l, n, s in corpus():
        d.setdefault(l, []).append(s)
    return d


TOKENS = {
    "C": """auto break case char const continue default do double else enum extern float for goto if int long register
 return short signed sizeof static struct switch typedef union unsigned void volatile while inline restrict _Bool
 _Complex asm __asm__ __attribute__ typeof NULL""".split(),
}
TOKENS["C++"] = TOKENS["C"] + """class namespace template typename public private protected virtual override final new delete
 this throw try catch using operator friend explicit mutable constexpr decltype nullptr noexcept static_assert
 alignas alignof thread_local static_cast dynamic_cast const_cast reinterpret_cast typeid true false bool wchar_t
 signals slots Q_OBJECT foreach forever emit and or not xor bitand bitor compl and_eq concept requires export import
 __declspec __cdecl auto decltype(auto) ...""".split()
TOKENS["C#"] = """abstract as base bool break byte case catch char checked class const continue decimal default delegate do
 double else enum event explicit extern false finally fixed float for foreach goto if implicit in int interface
 internal is lock long namespace new null object operator out override params private protected public readonly ref
 return sbyte sealed short sizeof stackalloc static string struct switch this throw true try typeof uint ulong
 unchecked unsafe ushort using virtual void volatile while add remove get set yield partial where select from let
 group by into orderby join on equals ascending descending async await var dynamic global assembly __arglist
 __makeref __reftype __refvalue => ?? ?.""".split()
TOKENS["Java"] = """abstract assert boolean break byte case catch char class const continue default do double else enum
 extends final finally float for goto if implements import instanceof int interface long native new package private
 protected public return short static strictfp super switch synchronized this throw throws transient try void
 volatile while true false null @interface @Override var record yield -> ::""".split()
TOKENS["Objective-C"] = TOKENS["C"] + """@interface @implementation @end @protocol @property @synthesize @dynamic @class @selector
 @encode @try @catch @finally @throw @synchronized @autoreleasepool @public @private @protected @package @optional
 @required @import @compatibility_alias @YES nil self super id BOOL IBOutlet [ ] - + @[ @{ @( @"str" __block ^""".split()
COMMON_TOK = """( ) { } [ ] ; , . : :: -> < > <= >= == != && || ! ~ & | ^ + - * / % ++ -- += -= *= /= %= &= |= ^= << >> <<= >>= = ?
 # ## \\ @ ... a b c foo Bar x y_1 N 0 1 42 0x1F 1.5 1e10 2.0f 'a' '\\n' "str" "" L"w" R"(raw)" R"x(a)b)x" u8"s" 1'000
 0b101 "a\\"b" '\\'' "unterminated 'u /* */ /* // /** doc */ //c """.split()
CPP_LINES = ["#if 0\n", "#if 1\n", "#ifdef A\n", "#ifndef B\n", "#else\n", "#elif X > 1\n", "#endif\n", "#define M(x) x + \\\n 1\n",
             "#define\n", "#include <a.h>\n", "#include \"b.h\"\n", "#pragma once\n", "#error msg\n", "#line 3 \"f\"\n", "#undef A\n",
             "# 12 \"x.c\"\n", "#region r\n", "#endregion\n", "#warning w\n", "#\n", "#if defined(A) && \\\n B\n", "#pragma omp parallel for\n", "#import <x>\n"]
ODD = ["\t", "\x0c", "\x0b", "\x01", "\x1b", "\x7f", "\u00e9", "\u20ac", "\U0001F600", "\u2028", "\ufeff", "\ufffd", "<", ">", "&", "\"", "'",
       "]]>", "&amp;", "&#10;", "<unit>", "\\\n", "\n\n", "\x00", "\u0085", "\u00a0"]


CONTROL = [chr(c) for c in range(1, 32) if c not in (10, 13)] + ["\x7f"]


def odd(r):
    return r.choice(CONTROL) if r.random() < .15 else r.choice(ODD)


def inside(r):
    """text that means something inside comments, strings and other literals: controls, escapes, ends"""
    return "".join(r.choice([lambda: r.choice(["a", "word", " ", "  ", "b c", "1", "x = y;"]), lambda: r.choice(CONTROL), lambda: odd(r),
                             lambda: r.choice(["\\", "\\n", "\\\"", "\\'", "\\\n", "\\ \n", "*", "/", "*\\\n/", "/*", "//", "\"", "'", ")x", "@param p d", "\\brief", "??/", "\n", "<b>", "\n * "])])()
                   for _ in range(r.randint(1, 12)))


def literal(r, lang):
    """one comment or literal, or the beginning of one"""
    b = inside(r)
    k = r.choice([("/*", "*/"), ("//", "\n"), ("/**", "*/"), ("/*!", "*/"), ("///", "\n"), ("//!", "\n"), ("\"", "\""), ("'", "'"), ("R\"x(", ")x\""), ("R\"(", ")\""), ("u8\"", "\""), ("L'", "'"),
                  ("@\"", "\""), ("\"\"\"", "\"\"\""), ("$\"", "\""), ("#error ", "\n"), ("#define A ", "\n"), ("#include <", ">\n"), ("#pragma ", "\n"), ("#if 0\n", "\n#endif\n")])
    return k[0] + b + (k[1] if r.random() < .93 else "")


def soup(r, lang, n):
    T = TOKENS[lang]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.40:
            out.append(r.choice(T))
        elif k < 0.88:
            out.append(r.choice(COMMON_TOK))
        elif k < 0.93 and lang != "Java":
            out.append("\n" + r.choice(CPP_LINES))
            continue
        else:
            out.append(r.choice(ODD[:16]) if k < 0.965 else literal(r, lang) if k < .98 else odd(r))
        out.append(r.choice([" ", " ", " ", "", "", "\n", "\t", "  "]))
    return "".join(out)


def mutate(r, s, lang):
    s = list(s)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k = r.randrange(9)
        i = r.randrange(len(s) + 1)
        if k == 0 and s:
            del s[i:i + r.randint(1, 6)]
        elif k == 1:
            s[i:i] = list(r.choice(COMMON_TOK))
        elif k == 2:
            s[i:i] = list(" " + r.choice(TOKENS[lang]) + " ")
        elif k == 3 and s:
            j = r.randrange(len(s))
            a, b = min(i, j), max(i, j)
            s[i:i] = s[a:b][:200]
        elif k == 4 and s:
            del s[i:]
        elif k == 5:
            s[i:i] = list(odd(r) if r.random() < .6 else literal(r, lang))
        elif k == 6 and lang != "Java":
            s[i:i] = list("\n" + r.choice(CPP_LINES))
        elif k == 7 and s:
            s[i:i + 1] = [r.choice("(){}[];,.:<>=+-*/&|!~?#\\\"'@ \n")]
        elif k == 8:
            o = list(r.choice(by_lang()[lang]))
            s[i:i] = o
    return "".join(s)


def program(r, lang, n=None):
    """concatenation of corpus units, with separators and comments"""
    b = by_lang()[lang]
    out = []
    for _ in range(n or r.randint(1, 8)):
        out.append(r.choice(b))
        out.append(r.choice(["\n", "\n\n", " ", "\n// c\n", "\n/* m\n l */\n", "\t", ""]))
    return "".join(out)


def wrap(r, lang, body):
    k = r.randrange(5)
    if k == 0:
        return "{ " + body + " }"
    if k == 1:
        return ("class C { %s };" if lang != "C" else "struct S { %s };") % body
    if k == 2:
        return "void f(int a) {\n\tif (a) { %s } else\n\t\twhile (b) { %s }\n}\n" % (body, body)
    if k == 3:
        return ("namespace n { %s }" if lang in ("C++", "C#") else "/* c */ %s") % body
    return "f(%s);" % body


def text(r, lang, hostile=0.5):
    k = r.random()
    if k < 0.25:
        s = program(r, lang)
    elif k < 0.40:
        s = wrap(r, lang, program(r, lang, r.randint(1, 3)))
        if r.random() < .5:
            s = wrap(r, lang, s)
    elif k < 0.75:
        s = mutate(r, program(r, lang, r.randint(1, 4)), lang)
    elif k < 0.91:
        s = soup(r, lang, r.randint(1, 60))
    elif k < 0.94:
        s = "".join(r.choice([literal(r, lang), literal(r, lang), " ", "\n", "a;", "int b = 1;\n"]) for _ in range(r.randint(1, 6)))
    else:
        s = "".join(r.choice(string.printable + "\u00e9\u20ac" ) for _ in range(r.randint(0, 80)))
    if r.random() < 0.05:
        s = s * r.randint(2, 6) if k >= .25 else s * r.randint(2, 60)
    return tame(s, lang)


def tame(s, lang, limit=4, joint=8):
    """keep the nesting of ( [ { and <, and the number of operator keywords in one statement, below that at
    which the parser's lookahead, which can double in cost per level (known finding of C03), gets slow"""
    if s.count("operator") > 3:
        w = re.split(r"(operator|[;{}])", s)
        k = 0
        for i, x in enumerate(w):
            if x == "operator":
                k += 1
                if k > 3:
                    w[i] = "operatar"
            elif i % 2:
                k = 0
        s = "".join(w)
    out, n = [], {"(": 0, "[": 0, "<": 0, "{": 0}
    cap = {"(": limit + 2, "[": limit, "<": limit, "{": 40}
    sub = {"(": " ", "[": " ", "<": ",", "{": ";"}
    close = {")": "(", "]": "[", ">": "<", "}": "{"}
    for c in s:
        if c in n:
            if n[c] >= cap[c] or sum(n.values()) >= joint:
                c = sub[c]
            else:
                n[c] += 1
        elif c in close:
            n[close[c]] = max(0, n[close[c]] - 1)
        if c in ";{}":
            n["<"] = 0
        out.append(c)
    return "".join(out)


def latin1(s):
    return "".join(c if ord(c) < 256 else "?" for c in s)


def boundary(r, lang, chars=("\u00e9", "\u20ac", "\U0001F600", "\r\n", "\r", "\n", "\x01", "<", "&", "\t", "\"", "*/", "//")):
    """interesting characters placed at and around the buffer sizes in use (1024, 2048, 4096, 8192)"""
    out = []
    n = 0
    target = r.choice([1024, 1024, 2048, 3072, 4096, 8192]) + r.randint(-4, 4)
    style = r.randrange(4)
    open_, close = [("/*", "*/"), ("\"", "\""), ("", ""), ("//", "\n")][style]
    out.append(open_)
    n += len(open_)
    while n < target:
        k = min(target - n, r.randint(1, 400))
        if style == 2:
            w = "".join(r.choice(["a", "b1", " ", ";", "x = y + 2;\n", "f(a);\n"]) for _ in range(k // 4 + 1))[:k]
        else:
            w = "x" * k
        out.append(w)
        n += len(w.encode())
        if n < target and style in (0, 2) and r.random() < .3:
            c = r.choice(chars[:8])
            out.append(c)
            n += len(c.encode())
    for _ in range(r.randint(1, 4)):
        out.append(r.choice(chars))
    out.append(close)
    out.append(r.choice(["", "\n", "int a;\n", "\r\n", "\r", "x"]))
    return "".join(out)


def longs(r, lang):
    n = r.choice([300, 1500, 5000, 20000, 70000])
    k = r.randrange(9)
    if k == 0:
        return "int %s = 1;\n" % ("n" * n)
    if k == 1:
        return "x = \"%s\";\n" % ("s" * n)
    if k == 2:
        return "/* %s */ int a;\n" % ("c\n\t " * (n // 4))
    if k == 3:
        return "a = " + " + ".join("b%d" % i for i in range(n // 40)) + ";\n"
    if k == 4:
        return "".join("int v%d;\n" % i for i in range(n // 40))
    if k == 5:
        return "f(%s);\n" % ", ".join("a%d" % i for i in range(n // 40))
    if k == 6:
        return "x = " + "1" * n + ";"
    if k == 7:
        return "// " + "\u00e9\u20ac " * (n // 6) + "\nint a;"
    return "if (a) b; " + "else if (c) d; " * (n // 100) + "else e;\n"


def eols(r, s):
    """vary the line ends"""
    k = r.randrange(6)
    if k < 3:
        return s
    if k == 3:
        return s.replace("\n", "\r\n")
    if k == 4:
        return s.replace("\n", "\r")
    return "".join(r.choice(["\n", "\r\n", "\r", "\n\r"]) if c == "\n" else c for c in s)


def anytext(r, lang):
    k = r.random()
    if k < .84:
        s = text(r, lang)
    elif k < .94:
        s = boundary(r, lang)
    elif k < .97:
        s = longs(r, lang)
    else:
        s = "".join(r.choice(ODD + CONTROL[:6] + ["a", " ", "\n", ";", "(", ")"]) for _ in range(r.randint(0, 40)))
        s = tame(s, lang)
    s = eols(r, s)
    if r.random() < .02:
        s = "\ufeff" + s
    return s


OPTS = [4, 8, 16, 32]


def options(r):
    o = 0
    for v in OPTS:
        if r.random() < .4:
            o |= v
    return o
