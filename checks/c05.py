"""C05: source encodings are decoded and re-encoded exactly (Python's codecs as oracle)."""
import re
import gen, xmlu
from vrun import Case, q, unq

RULE = ("sources encoded by Python's codecs in 20+ encodings, the encoding set on the unit, the archive, both (conflicting) or only by a byte order mark, "
        "over several channels and chunkings, some with undecodable bytes; srcML text, reported encoding, unparsed bytes, re-targeted unparse and archives "
        "written in several XML encodings are compared with what the codecs give; non-trivial: non-ASCII text, counted as distinct (encoding, way, text) cases")

JA = "\u3042\u3044\u6f22\u5b57\u30ab\u30ca\u8868\u80fd"
KO = "\uac00\ub098\ud55c\uae00"
ZH = "\u4e2d\u6587\u6f22\u5b57\u8a31\u529f"
CN = "\u4e2d\u6587\u6c49\u5b57"
CY = "\u0411\u0436\u044f\u0424"
GR = "\u03b1\u03b2\u03a9"
L1 = "\u00e9\u00fc\u00a9\u00df\u00bf"
ALL = L1 + CY + GR + JA + KO + "\u20ac\u2028\ufffd\U0001F600\U00010348\U0010FFFD"
# name, codec, characters, byte order mark, excluded ASCII
ENC = [("UTF-8", "utf-8", ALL), ("utf-8", "utf-8", ALL), ("UTF-16", "utf-16", ALL), ("UTF16", "utf-16", ALL), ("utf-16", "utf-16", ALL), ("UTF-16LE", "utf-16-le", ALL), ("UTF-16BE", "utf-16-be", ALL),
       ("UTF-32", "utf-32", ALL), ("UTF-32LE", "utf-32-le", ALL), ("UTF-32BE", "utf-32-be", ALL), ("ISO-8859-1", "latin-1", L1 + "\u00a0\u00ff"), ("LATIN1", "latin-1", L1), ("iso-8859-1", "latin-1", L1),
       ("ISO-8859-2", "iso8859-2", "\u0141\u017c\u00e9"), ("ISO-8859-5", "iso8859-5", CY), ("ISO-8859-7", "iso8859-7", GR), ("ISO-8859-15", "iso8859-15", "\u20ac\u00e9\u0153"), ("windows-1252", "cp1252", L1 + "\u20ac\u201c\u2122"),
       ("CP1251", "cp1251", CY), ("KOI8-R", "koi8-r", CY), ("SHIFT_JIS", "shift_jis", JA), ("EUC-JP", "euc_jp", JA), ("BIG5", "big5", ZH), ("GB18030", "gb18030", CN + JA + "\u00e9\U0001F600"), ("GBK", "gbk", CN), ("EUC-KR", "euc_kr", KO),
       ("ASCII", "ascii", "~"), ("US-ASCII", "ascii", "~"), ("MACINTOSH", "mac-roman", "\u00e9\u00fc"), ("CP437", "cp437", "\u00e9\u2550")]
MB = ("shift_jis", "euc_jp", "euc_kr", "big5", "gbk", "gb18030")
BOMS = {"utf-8": b"\xef\xbb\xbf", "utf-16": b"", "utf-32": b"", "utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff", "utf-32-le": b"\xff\xfe\0\0", "utf-32-be": b"\0\0\xfe\xff"}
XENC = [("UTF-8", "utf-8"), ("UTF-8", "utf-8"), ("UTF-16", "utf-16"), ("ISO-8859-1", "latin-1"), ("us-ascii", "ascii"), ("windows-1252", "cp1252"), ("KOI8-R", "koi8-r"), ("SHIFT_JIS", "shift_jis"), ("EUC-JP", "euc_jp"), ("GB18030", "gb18030"), ("ISO-8859-15", "iso8859-15"), ("BIG5", "big5")]
CANON = {"UTF16": "UTF-16"}


def can(ch, codec):
    try:
        return ch.encode(codec).decode(codec) == ch
    except UnicodeError:
        return False


def body(r, lang, chars):
    k = r.random()
    if k < .3:
        t = gen.boundary(r, lang, tuple(r.choice(chars) for _ in range(6)) + ("\n", "\r\n", "<", "&", "a", "*/", "//"))
    elif k < .6:
        t = gen.program(r, lang, r.randint(1, 3))
    else:
        t = ""
    out = []
    for _ in range(r.randint(1, 12)):
        w = "".join(r.choice(chars) for _ in range(r.randint(1, 5)))
        out.append(r.choice(["// %s\n", "/* %s */", "\"%s\";\n", "int %s;\n", "%s", "a%sb = 1;\n", " %s(x);\n", "\"<%s>\"", "\r\n%s\r\n", "\n"]).replace("%s", w))
    t = t[:r.randint(0, len(t))] + "".join(out) + t[len(t) // 2:]
    return gen.tame(t, lang)


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    name, codec, chars = r.choice(ENC)
    way = r.choice(["unit", "archive", "both", "bom"])
    if way == "bom" and codec not in BOMS:
        way = "unit"
    t = body(r, lang, chars)
    if codec in ("shift_jis", "euc_jp", "euc_kr", "big5", "gbk"):
        t = t.replace("\\", "/").replace("~", "-")
    t = "".join(c for c in t if can(c, codec))
    c = Case("c" + i, lang=lang, ename=name, codec=codec, way=way, leak=r.random() < .03)
    M = c.meta
    raw = t.encode(codec)
    if way == "bom":
        base = {"utf-16-le": "utf-16", "utf-16-be": "utf-16", "utf-32-le": "utf-32", "utf-32-be": "utf-32"}.get(codec, codec)
        raw = BOMS[codec] + raw
        M["ename"] = base.upper()
        M["codec"] = base
    elif codec in BOMS and r.random() < .3:
        raw = BOMS[codec] + raw
    bad = False
    if codec in ("utf-8", "shift_jis", "euc_jp", "gbk", "euc_kr", "big5", "ascii") and r.random() < .25:
        bad = True
        b = bytearray(raw)
        p = r.randint(0, len(b))
        if way == "bom":
            p = max(p, 3)
        # at a place between two characters, so that the oracle and iconv resynchronise alike
        while p < len(b) and (b[p] >= 0x40 or (p and b[p - 1] >= 0x80)):
            p += 1
        b[p:p] = r.choice([b"\xff", b"\xff\xff", b"\xff \xff"]) + b"\n"
        raw = bytes(b)
        t = raw.decode(codec, "replace")
    if t.startswith("\ufeff"):
        t = t[1:]
    M.update(text=t, bad=bad)
    xn, xc = r.choice(XENC)
    if xc in MB and not {x for x in t if ord(x) > 127 or x in "\\~"} <= set(next(e for e in ENC if e[1] == xc)[2]):
        xn, xc = XENC[0]        # where Python's and libxml2's tables may differ
    M["xenc"] = (xn, xc)
    c.add("acreate a0").add("archive_set_language a0", q(lang)).add("archive_set_xml_encoding a0", q(xn))
    M["store"] = r.random() < .5
    if M["store"]:
        c.add("archive_enable_option a0 64")
    c.add("ucreate u0 a0")
    other = r.choice([e for e in ENC if e[1] not in (codec,)])[0]
    if way in ("archive",):
        c.add("archive_set_src_encoding a0", q(name))
    if way == "both":
        c.add("archive_set_src_encoding a0", q(other))
    if way in ("unit", "both"):
        c.add("unit_set_src_encoding u0", q(name))
    if r.random() < .3 and xc not in MB:
        c.add("unit_set_filename u0", q("".join(r.choice(chars) for _ in range(3)) + ".c"))
    kind = r.choice(["mem", "mem", "file", "FILE", "fd", "pipe", "io", "io", "io"])
    pl = ""
    if kind == "io":
        pl = "c=" + ",".join(str(r.choice([1, 2, 3, 5, 7, 1023, 1024, 1025, 2047, 4095, 4097])) for _ in range(r.randint(1, 4)))
    M["how"] = kind + " " + pl
    c.add("src b0", q(raw))
    M["parse"] = len(c.lines)
    c.add("parse u0 %s b0 %s" % (kind, pl)).add("unit_get_src_encoding u0").add("unit_get_srcml u0")
    c.add("wopen a0 mem m0").add("archive_write_unit a0 u0").add("archive_close a0")
    M["doc"] = len(c.lines)
    c.add("mem m0")
    # read back; unparse in the encoding that is in force for the reader
    c.add("acreate a1")
    M["reader"] = None
    if r.random() < .5:
        M["reader"] = r.choice([e for e in ENC if e[2] == ALL])
        c.add("archive_set_src_encoding a1", q(M["reader"][0]))
    c.add("ropen a1 mem m0").add("read u1 a1")
    M["back"] = len(c.lines)
    c.add("unit_get_src_encoding u1").add("unit_get_srcml u1")
    c.add("unparse u1 mem m1").add("mem m1")
    M["target"] = None
    na = {x for x in t if ord(x) > 127 or x in "\\~"}
    cand = [e for e in ENC if e[2] == ALL or e[1] in MB and na <= set(e[2]) or e[1] not in MB and all(can(x, e[1]) for x in na)]
    if cand:
        M["target"] = r.choice(cand)
        M["at"] = len(c.lines)
        c.add("unit_set_src_encoding u1", q(M["target"][0])).add("unit_get_src_encoding u1")
        c.add("unparse u1 %s" % r.choice(["mem m2", "mem m2"])).add("mem m2")
    c.add("afree a1")
    return c


def fold(s):
    return re.sub("\ufffd+", "\ufffd", s)


def enc(s, codec):
    return s.encode(codec)


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines
    tag = "%s source in %s (set by %s, %s)" % (M["lang"], M["ename"], M["way"], M["how"])

    def bad(kind, what):
        ctx.violation(kind, tag + ": " + what, [c])

    p = M["parse"]
    if L[p].split(" ")[0] != "0":
        return bad("status", "parse returned " + L[p])
    exp = xmlu.norm(M["text"])
    got = (unq(L[p + 1]) or b"").decode()
    if got.upper() != CANON.get(M["ename"].upper(), M["ename"].upper()):
        return bad("reported-encoding", "reported %r" % got)
    f = fold if M["bad"] else (lambda s: s)

    def same(a, b, kind, where):
        if f(a) == f(b):
            return True
        k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
        bad(kind, "%s differs at character %d: expected %r got %r" % (where, k, a[max(0, k - 20):k + 20], b[max(0, k - 20):k + 20]))
        return False

    def utext(b, where):
        try:
            return xmlu.text(xmlu.parse(b"<?xml version='1.0' encoding='UTF-8'?>" + (b or b"")).root)
        except xmlu.XmlError as e:
            bad("not-well-formed", where + ": " + str(e))

    t = utext(unq(L[p + 2]), "srcML")
    if t is None or not same(exp, t, "decoded-text", "srcML text"):
        return
    raw = unq(L[M["doc"]]) or b""
    xn, xc = M["xenc"]
    try:
        s = raw.decode(xc)
        s = re.sub(r"^(<\?xml[^>]*encoding=\")[^\"]*", r"\1UTF-8", s)
        d = xmlu.parse(s.encode()).root
    except (UnicodeError, xmlu.XmlError) as e:
        return bad("written-document", "document in %s: %s: %r" % (xn, e, raw[:200]))
    us = xmlu.units(d)
    if len(us) != 1 or not same(exp, xmlu.text(us[0]), "written-text", "text of the archive written in %s" % xn):
        return
    if M["store"] and (us[0].get("src-encoding") or "").upper() != got.upper():
        return bad("stored-encoding", "src-encoding=%r" % us[0].get("src-encoding"))
    b = M["back"]
    t = utext(unq(L[b + 1]), "srcML read back")
    if t is None or not same(exp, t, "read-back-text", "text read back from %s" % xn):
        return
    def unparsed(line, codec, kind, where):
        o = unq(line) or b""
        try:
            o = o.decode(codec)
        except UnicodeError as z:
            return bad(kind, "%s is not in %s: %s %r" % (where, codec, z, o[:80]))
        if o.startswith("\ufeff") and codec.startswith("utf"):
            o = o[1:]
        # a character the encoding cannot represent is written as a reference
        ref = "".join(ch if can(ch, codec) or (M["bad"] and ch == "\ufffd") else "&#%d;" % ord(ch) for ch in exp)
        if M["bad"]:
            o = o.replace("&#65533;", "\ufffd")
        return same(ref, o, kind, where)

    codec = M["reader"][1] if M["reader"] else "latin-1"
    if L[b + 2] != "0" or not unparsed(L[b + 3], codec, "unparsed", "unparsed source in %s" % codec):
        if L[b + 2] != "0":
            bad("unparse-status", L[b + 2])
        return
    if M["target"]:
        a = M["at"]
        if unq(L[a + 1]).decode() != M["target"][0]:
            return bad("set-encoding", "%s after setting %s" % (L[a + 1], M["target"][0]))
        if L[a + 2] != "0":
            return bad("unparse-status", "%s for %s" % (L[a + 2], M["target"][0]))
        if not unparsed(L[a + 3], M["target"][1], "unparsed-in-set-encoding", "unparsed source in %s" % M["target"][0]):
            return
        ctx.tally("unparsed_in_other_encoding")
    ctx.seen((M["ename"], M["way"], xn, exp), nontrivial=any(ord(ch) > 127 for ch in exp))
    ctx.tally("src_" + M["ename"].upper())
    ctx.tally("xml_" + xn)
    if M["bad"]:
        ctx.tally("undecodable")
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "allocated bytes grow with every repetition: %r" % x.alloc)
    ctx.sample({"encoding": M["ename"], "way": M["way"], "channel": M["how"], "xml": xn, "text": exp[:100]})


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(20000, 600000), make, judge)
