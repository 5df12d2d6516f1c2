"""C18: unparsed line ends follow the requested style and nothing else changes."""
import gen, xmlu
from vrun import Case, q, unq

RULE = ("sources with every mixture of line ends (LF, CR, CRLF, blank lines, none at the end, next to multi-byte and control characters, inside comments, strings and directives), written, read, and unparsed again and "
        "again with random line-end settings, source encodings, channels, accesses, clones and transformation results in between; decoded bytes compared with the text and the setting in force, size with the bytes, "
        "equal settings with equal bytes, srcML with what it was before; non-trivial: the text has a line end, counted as distinct (text, setting, encoding, channel)")
EOL = {0: "\n", 1: "\n", 2: "\r", 3: "\r\n"}
CODECS = [("UTF-8", "utf-8")] * 3 + [("UTF-16", "utf-16"), ("UTF-16LE", "utf-16-le"), ("UTF-16BE", "utf-16-be"), ("ISO-8859-1", "latin-1"), ("UTF-32", "utf-32"), ("windows-1252", "cp1252")]
SINKS = ["mem", "mem", "file", "FILE", "fd", "io", "ionc"]
PIECES = ["\n", "\n", "\r", "\r\n", "\n\r", "\r\r", "\n\n\n", "\r\n\r\n", "a", "int a;", " ", "\t", "// c\n", "/* a\r\n b\r c */", "\"s\"", "\"a\\\r\nb\"", "#define A b \\\n c\n", "#if 1\r\nx\r\n#endif\r\n", "\x0b", "\x0c", "\x85", "\u2028", "\u2029",
          "\u00e9", "\x1b", "&", "<", "]]>", "'\\n'", "\\", "\\\n", "{\n}\n", "if (a)\r\n  b;\r", "\x1c\x1d\x1e"]


def text(r, lang):
    k = r.random()
    if k < .5:
        t = "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 5, 20, 80])))
    elif k < .9:
        t = gen.eols(r, gen.tame(gen.anytext(r, lang)[:4000], lang))
    else:
        # around the sizes of buffers
        n = r.choice([1023, 1024, 2048, 4000, 4096, 8192, 20000])
        t = "// " + "c" * (n - 3 - r.choice([0, 1, 2, 3])) + r.choice(["\n", "\r\n", "\r"]) + r.choice(["", "a", "\n", "\u00e9\r\n"])
    return t


def can(ch, codec):
    try:
        ch.encode(codec)
        return True
    except UnicodeError:
        return False


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    c = Case("c" + i, leak=r.random() < .03, lang=lang, outs=[], gets=[])
    M = c.meta
    n = r.choice([1, 1, 2, 3])
    M["texts"] = []
    c.add("acreate a0")
    c.add("archive_set_options a0 %d" % r.choice([0, 0, 4, 8, 16, 32, 44]))
    if n > 1 or r.random() < .5:
        c.add("archive_disable_solitary_unit a0")
    c.add("archive_set_src_encoding a0 'UTF-8").add("archive_set_language a0 %s" % q(lang)).add("archive_set_xml_encoding a0", q(r.choice(["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1"])))
    c.add("wopen a0 mem m0")
    for k in range(n):
        t = text(r, lang).lstrip("\ufeff")
        t = t.replace("\ufffe", "").replace("\uffff", "").replace("\x7f", "")
        c.add("ucreate u%d a0" % k)
        if r.random() < .2:
            c.add("unit_set_eol u%d %d" % (k, r.randrange(4)))      # not stored
        c.add("parse u%d mem %s" % (k, q(t))).add("archive_write_unit a0 u%d" % k)
        M["texts"].append(t)
    c.add("archive_close a0").add("acreate a1")
    enc, codec = r.choice(CODECS)
    c.add("archive_set_src_encoding a1", q(enc)).add("ropen a1 %s m0" % r.choice(["mem", "file", "io"]))
    slots = []
    M["s0"] = {}
    for k in range(n):
        c.add("read u%d a1" % (20 + k))
        slots.append([20 + k, k, 0, codec])
    for s in slots:
        if r.random() < .5:
            M["gets"].append((len(c.lines), ("srcml", s[1])))
            c.add("unit_get_srcml u%d" % s[0])
    nx = 60
    for _ in range(r.choice([2, 4, 8, 16])):
        s = r.choice(slots)
        z = r.random()
        if z < .35:
            e = r.randrange(4)
            c.add("unit_set_eol u%d %d" % (s[0], e))
            s[2] = e
        elif z < .4:
            M["gets"].append((len(c.lines), ("bad", 0)))
            c.add("unit_set_eol u%d %d" % (s[0], r.choice([4, 5, 100, 65536])))
        elif z < .5:
            M["gets"].append((len(c.lines), ("eol", s[2])))
            c.add("unit_get_eol u%d" % s[0])
        elif z < .58:
            enc, s[3] = r.choice(CODECS)
            c.add("unit_set_src_encoding u%d %s" % (s[0], q(enc)))
        elif z < .64:
            M["gets"].append((len(c.lines), ("srcml", s[1])))
            c.add("unit_get_srcml u%d" % s[0])
        elif z < .7 and nx < 90:
            # a clone made for other source has the setting of the original
            c.add("uclone u%d u%d" % (nx, s[0]))
            M["gets"].append((len(c.lines), ("eol", s[2])))
            c.add("unit_get_eol u%d" % nx)
            nx += 1
        else:
            k = r.choice(SINKS)
            dest = "m3" if k == "mem" else str(5 + len(M["outs"])) if k in ("io", "ionc") else "'o%d" % len(M["outs"])
            at = len(c.lines)
            c.add("unparse u%d %s %s" % (s[0], k, dest))
            c.add("mem m3" if k == "mem" else "wdata " + dest if k in ("io", "ionc") else "slurp b101 " + dest)
            M["outs"].append((at, s[1], s[2], s[3], k))
            if k == "mem":
                M["gets"].append((len(c.lines), ("size", at + 1)))
                c.add("memsz m3")
    return c


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines

    def bad(kind, what):
        ctx.violation(kind, what, [c])
    e = next((l for l in L if l.startswith("!")), None)
    if e:
        return bad("exception", e[:300])
    s0 = {}
    same = {}
    for at, (k, v) in M["gets"]:
        if k == "eol" and L[at] != str(v):
            return bad("get-eol", "the setting is %s, set %d" % (L[at], v))
        if k == "bad" and L[at] == "0":
            return bad("set-eol", "%s was accepted" % c.lines[at])
        if k == "srcml" and s0.setdefault(v, L[at]) != L[at]:
            return bad("srcml-changed", "the srcML changed from %r to %r" % (s0[v][:300], L[at][:300]))
        if k == "size" and int(L[at].split(" ")[0]) != len(unq(L[v]) or b""):
            return bad("size", "the size reported is %s for %d bytes" % (L[at], len(unq(L[v]) or b"")))
    for at, k, eol, codec, sink in M["outs"]:
        t = xmlu.norm(M["texts"][k])
        exp = "".join(EOL[eol] if ch == "\n" else ch if can(ch, codec) else "&#%d;" % ord(ch) for ch in t)
        p = L[at + 1].split(" ")[0]
        b = b"" if p == "~" else unq(p)
        if L[at] != "0":
            return bad("status", "unparse returned %s" % L[at])
        try:
            o = b.decode(codec)
        except UnicodeError as z:
            return bad("encoding", "unparsed bytes are not %s: %s %r" % (codec, z, b[:100]))
        if o.startswith("\ufeff"):
            o = o[1:]
        if o != exp:
            j = next((j for j in range(min(len(o), len(exp))) if o[j] != exp[j]), min(len(o), len(exp)))
            kind = "line-ends" if xmlu.norm(o) == xmlu.norm(exp) else "other-characters"
            return bad(kind, "end-of-line setting %d, %s to %s: from character %d %r, expected %r (%d and %d characters)" % (eol, codec, sink, j, o[max(0, j - 20):j + 40], exp[max(0, j - 20):j + 40], len(o), len(exp)))
        if same.setdefault((k, EOL[eol], codec), b) != b:
            return bad("bytes-differ", "the same unit, setting and encoding gave other bytes: %r, %r" % (same[(k, EOL[eol], codec)][:200], b[:200]))
        ctx.seen((t, eol, codec, sink), "\n" in t)
        ctx.tally("unparse_eol_%d" % eol)
        ctx.tally("line_ends", t.count("\n"))
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "bytes still allocated after each of four runs: %s" % x.alloc)


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(8000, 150000), make, judge, chunk=64, batch=32, tag="a")
