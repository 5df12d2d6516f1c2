"""C04: the channel and its chunking never change the result."""
import re
import gen
from vrun import Case, q, unq

RULE = ("each source is parsed from memory and from 2-4 other channels (file name, FILE, descriptor, pipes written in pieces, callbacks with and "
        "without close) under random chunk plans (one byte at a time, splits inside characters, CRLF and BOM); archives are read the same way; "
        "archives and unparsed units are written to every kind of sink (file names of all kinds); everything is compared with the memory result and the callback log; "
        "the one-call conversion of a file, both ways, is compared with the separate calls under random settings; "
        "non-trivial: more than one read or write was needed, counted as distinct (channel, plan, size, encoding) observations")
SRC_KINDS = ["file", "FILE", "fd", "pipe", "pipeFILE", "io", "io", "io", "ionc"]
READ_KINDS = ["file", "FILE", "fd", "pipe", "io", "io", "ionc"]
NAMES = ["", "", "%41", " b", "\u00e9", "#x", "?y=1", ".gz", "%", "%2Fz", "&a"]
SINKS = ["file", "FILE", "fd", "io", "ionc"]
ENCS = [("UTF-8", "utf-8", b""), ("UTF-8", "utf-8", b"\xef\xbb\xbf"), (None, "utf-8", b"\xef\xbb\xbf"), ("ISO-8859-1", "latin-1", b""), (None, "latin-1", b""), ("UTF-16", "utf-16", b""), (None, "utf-16", b""),
        ("UTF-16LE", "utf-16-le", b""), ("UTF-16BE", "utf-16-be", b""), ("UTF-16", "utf-16-be", b"\xfe\xff"), ("UTF-32", "utf-32", b""), ("SHIFT_JIS", "shift_jis", b""), ("GB18030", "gb18030", b""), ("windows-1252", "cp1252", b"")]


def odd(M, kind, k):
    """name of an output file: any name will do"""
    return kind + str(k) + NAMES[(M["names"] + k) % len(NAMES)]


def chunks(r):
    k = r.randrange(6)
    if k == 0:
        return "c=1"
    if k == 1:
        return "c=%d" % r.choice([2, 3, 5, 7, 1021, 1023, 1024, 1025, 4093, 4096])
    if k == 2:
        return "c=" + ",".join(str(r.choice([1, 2, 3, 4, 5])) for _ in range(r.randint(2, 6)))
    if k == 3:
        return "c=" + ",".join(str(r.choice([1, 2, 3, 1000, 1023, 1024, 1025, 2048, 3000, 4095])) for _ in range(r.randint(2, 6)))
    if k == 4:
        return "c=%d,100000" % r.randint(1, 2000)
    return "c=100000"


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    c = Case("c" + i, lang=lang, leak=r.random() < .04)
    M = c.meta
    enc, codec, bom = r.choice(ENCS)
    opt = gen.options(r)
    M.update(names=r.randrange(1000), enc=enc, opt=opt, parse=[], read=[], write=[], unparse=[])
    c.add("acreate a0").add("archive_set_language a0", q(lang)).add("archive_enable_option a0", opt)
    if enc:
        c.add("archive_set_src_encoding a0", q(enc))
    if r.random() < .2:
        c.add("archive_set_xml_encoding a0", q(r.choice(["ISO-8859-1", "UTF-16"])))
    n = r.choice([1, 1, 2])
    u = 0
    for k in range(n):
        t = gen.anytext(r, lang)
        while len(t) > 9000:
            t = gen.anytext(r, lang)
        if t.startswith("\ufeff"):
            t = t[1:]
        b = bom + t.encode(codec, "replace")
        c.add("src b%d %s" % (k, q(b)))
        group = []
        for kind in ["mem"] + [r.choice(SRC_KINDS) for _ in range(r.randint(2, 4))]:
            pl = chunks(r) if kind in ("io", "ionc", "pipe", "pipeFILE") else ""
            if kind.startswith("pipe") and pl.startswith("c=1") and len(b) > 3000:
                pl = "c=700"
            c.add("ucreate u%d a0" % u).add("unit_set_filename u%d 'f" % u)
            group.append((kind, pl, len(c.lines), u, len(b)))
            c.add("parse u%d %s b%d %s" % (u, kind, k, pl))
            c.add("unit_get_srcml u%d" % u).add("unit_get_hash u%d" % u).add("unit_get_loc u%d" % u).add("unit_get_src_encoding u%d" % u).add("unit_get_language u%d" % u)
            u += 1
        M["parse"].append(group)
    units = [g[0][3] for g in M["parse"]]
    # sinks of an archive
    solitary = n == 1 and r.random() < .3
    if solitary:
        c.add("archive_enable_solitary_unit a0")
    for kind in ["mem"] + r.sample(SINKS, r.randint(1, 3)):
        w = dict(kind=kind, open=len(c.lines))
        j = len(M["write"])
        a = "a%d" % (10 + j)
        c.add("aclone %s a0" % a)
        dest = "m0" if kind == "mem" else str(20 + j) if kind in ("io", "ionc") else q(odd(M, "w", j))
        w["open"] = len(c.lines)
        c.add("wopen %s %s %s" % (a, kind, dest))
        for x in units:
            c.add("archive_write_unit %s u%d" % (a, x))
        w["close"] = len(c.lines)
        c.add("archive_close %s" % a)
        if kind == "mem":
            pass
        elif kind in ("io", "ionc"):
            c.add("afree %s" % a)
        elif r.random() < .5:
            c.add("afree %s" % a)
        w["data"] = len(c.lines)
        if kind == "mem":
            c.add("mem m0")
        elif kind in ("io", "ionc"):
            c.add("wdata %d" % (20 + j))
        elif kind == "FILE":
            w["FILE"] = True
            c.add("flushall")
            w["data"] = len(c.lines)
            c.add("slurp b100", q(odd(M, "w", j)))
        else:
            c.add("slurp b100", q(odd(M, "w", j)))
        M["write"].append(w)
    # channels of a reader, and of unparse
    for j, kind in enumerate(["mem"] + [r.choice(READ_KINDS) for _ in range(r.randint(1, 3))]):
        a = "a%d" % (30 + j)
        pl = chunks(r) if kind in ("io", "ionc", "pipe") else ""
        if kind == "io":
            pl += ";k=%d" % j
        rd = dict(kind=kind, plan=pl, at=None, units=[])
        c.add("acreate %s" % a)
        if enc:
            c.add("archive_set_src_encoding %s %s" % (a, q(enc)))
        rd["at"] = len(c.lines)
        c.add("ropen %s %s m0 %s" % (a, kind, pl))
        c.add("archive_get_language %s" % a).add("archive_get_options %s" % a).add("archive_get_xml_encoding %s" % a).add("archive_is_solitary_unit %s" % a).add("archive_get_namespace_size %s" % a)
        for k in range(n + 1):
            x = 100 + j * 5 + k
            c.add("read u%d %s" % (x, a)).add("unit_get_srcml u%d" % x).add("unit_get_hash u%d" % x).add("unit_get_loc u%d" % x).add("unit_get_filename u%d" % x).add("unit_get_src_encoding u%d" % x)
        if j == 0:
            eol = r.randrange(4)
            for s, sink in enumerate(["mem"] + r.sample(SINKS, r.randint(1, 3))):
                c.add("unit_set_eol u100 %d" % eol)
                g = dict(kind=sink, at=len(c.lines))
                dest = "m1" if sink == "mem" else str(40 + s) if sink in ("io", "ionc") else q(odd(M, "p", s))
                c.add("unparse u100 %s %s" % (sink, dest))
                g["data"] = len(c.lines)
                c.add("mem m1" if sink == "mem" else "wdata %d" % (40 + s) if sink in ("io", "ionc") else "slurp b101 " + q(odd(M, "p", s)))
                M["unparse"].append(g)
        c.add("archive_close %s" % a)
        rd["end"] = len(c.lines)
        for k in range(n + 1):
            c.add("ufree u%d" % (100 + j * 5 + k))
        if kind == "io":
            c.add("afree %s" % a)
            rd["rstat"] = len(c.lines)
            c.add("rstat %d" % j)
        M["read"].append(rd)
    return c


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines
    tag = "lang %s src encoding %s options %d" % (M["lang"], M["enc"], M["opt"])

    def bad(kind, what):
        ctx.violation(kind, tag + ": " + what, [c])

    for group in M["parse"]:
        ref = None
        for kind, pl, at, u, size in group:
            st = L[at].split(" ")
            got = [st[0]] + L[at + 1:at + 6]
            if ref is None:
                ref = got
            elif got != ref:
                w = ["status", "srcML", "hash", "loc", "src encoding", "language"]
                d = [w[k] for k in range(6) if got[k] != ref[k]]
                bad("parse-%s-differs-%s" % (kind, d[0].replace(" ", "-")), "%s with plan %r: %s differs from memory (%d bytes)\n%s\n%s" % (kind, pl, d, size, ref[w.index(d[0])][:700], got[w.index(d[0])][:700]))
                return
            if kind == "io" and (st[1] != "closed=1" or st[3] != "after=0" or int(st[2][4:]) < size):
                bad("parse-callbacks", "callbacks of a parse: %s of %d bytes" % (L[at], size))
                return
            ctx.seen((kind, pl, size, M["enc"]), nontrivial=kind != "mem" and size > 1)
            ctx.tally("parse_" + kind)
        if ref[0] != "0":
            bad("parse-status", "status %s" % ref[0])
            return
    ref = None
    for w in M["write"]:
        if L[w["open"]] != "0" or L[w["close"]] not in ("0", "."):
            bad("write-open", "%s: open %s close %s" % (w["kind"], L[w["open"]], L[w["close"]]))
            return
        p = L[w["data"]].split(" ")
        if ref is None:
            ref = p[0]
        elif p[0] != ref:
            bad("written-%s-differs" % w["kind"], "%s received other bytes than memory:\n%s\n%s" % (w["kind"], ref[:900], p[0][:900]))
            return
        if w["kind"] == "io" and (p[1] != "closed=1" or p[4] != "after=0"):
            bad("write-callbacks", "callbacks of an archive: %r" % p[1:])
            return
        ctx.tally("write_" + w["kind"])
        ctx.seen(("w", w["kind"], len(p[0]), M["enc"]), nontrivial=len(p[0]) > 300)
    ref = None
    for rd in M["read"]:
        got = L[rd["at"]:rd["at"] + 6 + 6 * (len(M["parse"]) + 1)]
        if got[0] != "0":
            bad("read-open", "%s: %s" % (rd["kind"], got[0]))
            return
        if ref is None:
            ref = got
        elif got != ref:
            k = [k for k in range(len(got)) if got[k] != ref[k]][0]
            bad("read-%s-differs" % rd["kind"], "%s with plan %r differs from memory at result %d\n%s\n%s" % (rd["kind"], rd["plan"], k, ref[k][:700], got[k][:700]))
            return
        if "rstat" in rd:
            s = dict(kv.split("=") for kv in L[rd["rstat"]].split(" "))
            if s["closed"] != "1" or s["after"] != "0":
                bad("read-callbacks", "callbacks of a reader: %s" % L[rd["rstat"]])
                return
        ctx.tally("read_" + rd["kind"])
        ctx.seen(("r", rd["kind"], rd["plan"], len(got[7]), M["enc"]), nontrivial=len(got[7]) > 300)
    ref = None
    for g in M["unparse"]:
        p = L[g["data"]].split(" ")
        got = (L[g["at"]], "'" if p[0] == "~" else p[0])
        if ref is None:
            ref = got
        elif got != ref:
            bad("unparse-%s-differs" % g["kind"], "%s received other bytes than memory:\n%s\n%s" % (g["kind"], str(ref)[:700], str(got)[:700]))
            return
        if g["kind"] == "io" and (p[1] != "closed=1" or p[4] != "after=0"):
            bad("unparse-callbacks", "callbacks of an unparse: %r" % p[1:])
            return
        ctx.tally("unparse_" + g["kind"])
        ctx.seen(("u", g["kind"], len(p[0]), M["enc"]), nontrivial=len(p[0]) > 40)
    if c.leak and x.fds:
        bad("descriptors", "%d descriptors left open" % x.fds)
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "allocated bytes grow with every repetition: %r" % x.alloc)
    ctx.sample({"encoding": M["enc"], "channels": [(g[0], g[1]) for g in M["parse"][0]], "sinks": [w["kind"] for w in M["write"]], "readers": [(d["kind"], d["plan"]) for d in M["read"]]})


def make_call(r, i, ctx):
    """the one-call conversion with the settings of the process, and the same with separate calls"""
    lang = r.choice(gen.LANGS)
    c = Case("g" + i, lang=lang)
    M = c.meta
    enc = r.choice(["UTF-8", "UTF-8", "ISO-8859-1", "UTF-16LE", None])
    S = [("language", lang), ("url", r.choice([None, "u <1>", "http://x"])), ("version", r.choice([None, "", "1 & 2"])), ("tabstop", r.choice([1, 4, 8])), ("options", r.choice([0, 0, 2, 4, 8, 20, 32, 44])),
         ("src_encoding", enc), ("xml_encoding", r.choice([None, "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16"]))]
    if S[4][1] & 2:
        S[6] = ("xml_encoding", None)       # without the declaration the encoding is UTF-8
    U = [("filename", r.choice([None, "a <b>.c", "x/y.java"])), ("timestamp", r.choice([None, "Mon", ""]))]
    eol = r.randrange(4)
    t = gen.tame(gen.anytext(r, lang)[:3000], lang).lstrip("\ufeff").replace("\ufffe", "").replace("\uffff", "")
    b = t.encode({"UTF-8": "utf-8", "UTF-16LE": "utf-16-le"}.get(enc, "latin-1"), "replace")
    M.update(enc=enc, settings=S, unit=U, eol=eol)
    v = lambda x: "~" if x is None else str(x) if isinstance(x, int) else q(x)
    g = S + U + [("eol", eol)]
    r.shuffle(g)
    for k, x in g:
        c.add("set_" + k, v(x))
    ext = r.choice(["zz", "c", "java", "cpp"])
    c.add("register_file_extension", q(ext), q(r.choice(gen.LANGS)))
    src, out, back = "in%s.%s" % (r.choice(NAMES), ext), "out%s.xml" % r.choice(NAMES), "back" + r.choice(NAMES)
    M["src"] = src
    c.add("put", q(src), q(b))
    M["st"] = len(c.lines)
    c.add("srcml", q(src), q(out)).add("slurp b1", q(out))
    # the same with separate calls
    c.add("acreate a0")
    for k, x in S:
        c.add("archive_set_" + k, "a0", v(x))
    c.add("archive_enable_solitary_unit a0").add("wopen a0 mem m0").add("ucreate u0 a0").add("unit_set_language u0", v(lang))
    c.add("unit_set_filename u0", v(U[0][1] if U[0][1] is not None else "IN")).add("unit_set_version u0", v(S[2][1])).add("unit_set_timestamp u0", v(U[1][1]))
    c.add("parse u0 mem", q(b)).add("archive_write_unit a0 u0").add("archive_close a0")
    M["doc"] = len(c.lines)
    c.add("mem m0")
    M["back"] = len(c.lines)
    c.add("srcml", q(out), q(back)).add("slurp b2", q(back))
    c.add("acreate a1")
    c.add("archive_set_src_encoding a1", v(enc)).add("archive_set_xml_encoding a1", v(S[6][1]))
    c.add("ropen a1 name", q(out)).add("read u1 a1").add("unit_set_eol u1 %d" % eol).add("unparse u1 mem m1")
    M["text"] = len(c.lines)
    c.add("mem m1")
    # nothing stays for the cases that follow in this process
    for k, x in [("url", None), ("version", None), ("tabstop", 8), ("options", 0), ("src_encoding", None), ("xml_encoding", None), ("filename", None), ("timestamp", None), ("language", None), ("eol", 0)]:
        c.add("set_" + k, v(x))
    return c


def judge_call(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines
    tag = "one call on %r, settings %s, unit %s, line ends %d" % (M["src"], M["settings"], M["unit"], M["eol"])

    def bad(kind, what):
        ctx.violation("call-" + kind, tag + ": " + what, [c])

    if L[M["st"]] != "0":
        return bad("status", "source to srcML gives status %s" % L[M["st"]])
    a, b = unq(L[M["st"] + 1]), unq(L[M["doc"]])
    if a is None or b is None:
        return bad("nothing", "no document")
    if M["unit"][0][1] is None:
        codec = "utf-16" if (M["settings"][6][1] or "").startswith("UTF-16") else "latin-1"
        a = re.sub(' filename="[^"]*in[^"]*"', ' filename="IN"', a.decode(codec), count=1).encode(codec)
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return bad("document", "the document differs from that of the separate calls at byte %d: %r and %r" % (k, a[max(0, k - 60):k + 80], b[max(0, k - 60):k + 80]))
    a, b = unq(L[M["back"] + 1]), unq(L[M["text"]])
    if L[M["back"]] != "0" or a != b:
        return bad("source", "status %s, source %r, the separate calls give %r" % (L[M["back"]], (a or b"")[:300], (b or b"")[:300]))
    ctx.tally("one_call")
    ctx.seen(("call", len(b), M["enc"], M["eol"], tuple(M["settings"])), nontrivial=len(b) > 0)


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(5000, 200000), make, judge, chunk=80, batch=20)
    ctx.fan(ctx.n(4000, 100000), make_call, judge_call, tag="g")
