"""C14: I/O failures are reported and leave nothing behind."""
import re
import blocks, gen
from vrun import Case, q, unq

RULE = ("sources and archives read through callbacks that fail (error, or zero bytes) at any byte, descriptors and files that cannot be read (directory, write-only, missing, none left), close callbacks that fail; "
        "archives written and units unparsed to callbacks that fail at any byte (nothing or part of the block taken), full devices, files limited in size, broken pipes, read-only descriptors, unwritable names, no descriptors left; "
        "compared with the fault-free run: a prefix is delivered or parsed, the failure is in a status wherever the interface has one, callbacks are closed once and never called after, nothing is leaked, "
        "and the archive, unit and process work as before afterwards; non-trivial: a fault was met, counted as distinct (kind, document, position)")
IN_NAMES = [("missing", "'no/such/file.cpp"), ("missing", "'nosuch.cpp"), ("directory", "'sub"), ("slash", "'f.cpp/x"), ("long", "'" + "n" * 300)]
OUT_NAMES = [("missing", "'no/such/out.xml"), ("directory", "'sub"), ("long", "'" + "n" * 300), ("full", "'/dev/full")]


def src(r):
    lang = r.choice(gen.LANGS)
    t = blocks.source(r, lang, 3000)
    enc, codec = r.choice([("UTF-8", "utf-8")] * 3 + [("UTF-16", "utf-16"), ("ISO-8859-1", "latin-1")])
    return lang, t.encode(codec, "replace"), enc


def doc(r):
    n = r.choice([1, 2, 3, 8])
    us = "\n\n".join('<unit revision="1.0.0" language="C++" filename="f%d">%s</unit>' % (k, "".join(r.choice(["<expr_stmt><expr><name>a</name></expr>;</expr_stmt>", "\n", "\u00e9 &lt;", "<escape char=\"0x1b\"/>", "long " * 50])
                                                                                                 for _ in range(r.choice([0, 2, 10, 100])))) for k in range(n))
    if r.random() < .2:
        return '<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0" language="C++">%s</unit>' % "".join("<name>a</name>\n" for _ in range(r.choice([0, 3, 300])))
    return '<?xml version="1.0" encoding="UTF-8"?>\n<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0">\n\n%s\n\n</unit>\n' % us


class B:
    """a case with named lines"""

    def __init__(self, name, r):
        self.c = Case(name, leak=r.random() < .12, limit=60, at={}, kind=None)
        self.at = self.c.meta["at"]

    def add(self, key, *toks):
        if key:
            self.at[key] = len(self.c.lines)
        self.c.add(*toks)


def settings(b, r, lang, enc, opt, a="a0"):
    b.add(None, "acreate", a)
    b.add(None, "archive_set_language %s %s" % (a, q(lang)))
    b.add(None, "archive_set_src_encoding %s %s" % (a, q(enc)))
    b.add(None, "archive_set_options %s %d" % (a, opt))


def parse_case(r, i):
    b = B("p" + i, r)
    M = b.c.meta
    lang, t, enc = src(r)
    opt = r.choice([0, 0, 4, 8, 12])
    settings(b, r, lang, enc, opt)
    b.add(None, "mkdir 'sub")
    b.add(None, "put 'f.cpp 'a;")
    b.add(None, "ucreate u0 a0")
    b.add(None, "ucreate u1 a0")
    k = r.random() if r.random() > .12 else 2
    where = r.choice([0, 1, 2, len(t), len(t) - 1, r.randrange(len(t) + 1), r.randrange(len(t) + 1), r.randrange(len(t) + 1)]) if t else 0
    where = max(0, min(where, len(t)))
    if k == 2:
        # a source that is there, but cannot be parsed as asked for
        M["kept"] = kind = r.choice(["encoding", "language"])
        how = r.choice(["name", "name", "file", "FILE", "fd", "pipe", "io", "mem"])
        b.c.leak = b.c.leak or r.random() < .5
        b.add(None, "archive_set_src_encoding a0 'no-such-encoding" if kind == "encoding" else "archive_set_language a0 ~")
        if how == "name" and kind == "language":
            how = "file"
        kind = "refused-%s-%s" % (kind, how)
        b.add("st", "parse u0 %s %s" % (how, "'f.cpp" if how == "name" else q(t)))
        b.add(None, "archive_set_language a0 %s" % q(lang))
        b.add(None, "archive_set_src_encoding a0 %s" % q(enc))
    elif k < .6:
        kind = "io"
        chunk = "c=%s" % r.choice(["1,7", "100", "4096", "1000,3"])
        fault = "fail=%d;failret=%d" % (where, r.choice([-1, -1, 0]))
        if r.random() < .2:
            fault = "close=-1"
            where = len(t)
        b.add("st", "parse u0 io %s %s;%s" % (q(t), chunk, fault))
        M["prefix"] = where
        b.add(None, "parse u1 mem %s" % q(t[:where]))
    elif k < .75:
        kind, n = r.choice(IN_NAMES)
        kind = "name-" + kind
        b.add("st", "parse u0 name %s" % n)
    elif k < .9:
        z = r.choice(["dir", "wo"])
        kind = "fd-" + z
        b.add("st", "parse u0 xfd %s" % z)
    elif k < .95:
        kind = "FILE-wo"
        b.add("st", "parse u0 xFILE wo")
    else:
        kind = "no-descriptors"
        b.add(None, "nofile 0")
        b.add("st", "parse u0 name 'f.cpp")
        b.add(None, "nofile -1")
    for g in ("srcml", "hash", "loc"):
        b.add("x" + g, "unit_get_%s u0" % g)
        b.add("p" + g, "unit_get_%s u1" % g)
    # afterwards everything works, with the same unit
    b.add("again", "parse u0 mem %s" % q(t))
    b.add(None, "ucreate u2 a0")
    b.add(None, "parse u2 mem %s" % q(t))
    b.add("asrcml", "unit_get_srcml u0")
    b.add("bsrcml", "unit_get_srcml u2")
    b.add("ahash", "unit_get_hash u0")
    b.add("bhash", "unit_get_hash u2")
    M.update(kind="parse-" + kind, src=t, where=where)
    return b.c


def read_case(r, i):
    b = B("r" + i, r)
    M = b.c.meta
    d = doc(r).encode()
    where = r.choice([0, 1, 2, len(d), len(d) - 1] + [r.randrange(len(d) + 1)] * 6)
    b.add(None, "acreate a0")
    b.add(None, "acreate a1")
    b.add(None, "mkdir 'sub")
    b.add(None, "put 'f.xml %s" % q(d))
    if r.random() < .5:
        b.add(None, "inject %d %d %d" % (r.choice([1, 3]), r.choice([0, 1]), r.randrange(1000)))
    k = r.random()
    M["prefix"] = None
    if k < .65:
        kind = "io"
        f = "c=%s;fail=%d;failret=%d;k=0" % (r.choice(["1,300", "7", "100,4096", "100000"]), where, r.choice([-1, -1, 0]))
        if r.random() < .2:
            f = "c=300;close=-1;k=0"
            where = len(d)
        b.add("st", "ropen a0 io %s %s" % (q(d), f))
        b.add("ref", "ropen a1 mem %s" % q(d[:where]))
        M["prefix"] = where
    elif k < .8:
        kind, n = r.choice(IN_NAMES)
        kind = "name-" + kind
        b.add("st", "ropen a0 name %s" % n)
    elif k < .9:
        z = r.choice(["dir", "wo"])
        kind = "fd-" + z
        b.add("st", "ropen a0 xfd %s" % z)
    elif k < .95:
        kind = "FILE-wo"
        b.add("st", "ropen a0 xFILE wo")
    else:
        kind = "no-descriptors"
        b.add(None, "nofile 0")
        b.add("st", "ropen a0 name 'f.xml")
        b.add(None, "nofile -1")
    M["reads"] = []
    for n in range(d.count(b"<unit") + 1):
        b.add("r%d" % n, "read u%d a0" % n)
        b.add(None, "unit_get_srcml u%d" % n)
        if M["prefix"] is not None:
            b.add("q%d" % n, "read u%d a1" % (50 + n))
            b.add(None, "unit_get_srcml u%d" % (50 + n))
        M["reads"].append(n)
    b.add(None, "archive_close a0")
    if kind == "io":
        b.add("stat", "rstat 0")
    b.add(None, "archive_close a1")
    if kind == "no-descriptors":
        b.add(None, "acreate a2")
        b.add(None, "ropen a2 mem %s" % q(d))
        for n in M["reads"]:
            b.add("f%d" % n, "read u%d a2" % (100 + n))
            b.add(None, "unit_get_srcml u%d" % (100 + n))
        b.add(None, "archive_close a2")
    # the archive can be used again
    b.add("again", "ropen a0 mem %s" % q(d))
    b.add("again1", "read u0 a0")
    b.add(None, "archive_close a0")
    M.update(kind="read-" + kind, src=d, where=where, solitary=d.startswith(b"<unit"))
    return b.c


def write_case(r, i):
    """units written to a failing sink; or a unit unparsed to one"""
    b = B("w" + i, r)
    M = b.c.meta
    unparse = r.random() < .5
    big = r.random() < .25
    n = 1 if unparse else r.choice([1, 2, 5])
    texts = []
    for k in range(n):
        lang, t, enc = src(r)
        if big:
            t = b"int a = 1;\n" * r.choice([100, 400])
            lang, enc = "C++", "UTF-8"
        texts.append((lang, t, enc))
    sol = not unparse and r.random() < .3
    b.add(None, "mkdir 'sub")
    b.add(None, "rm 'out")
    xenc = r.choice(["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1"])

    def units(a, base):
        for k, (lang, t, enc) in enumerate(texts):
            u = base + k
            b.add(None, "ucreate u%d %s" % (u, a))
            b.add(None, "unit_set_language u%d %s" % (u, q(lang)))
            b.add(None, "unit_set_src_encoding u%d %s" % (u, q(enc)))
            b.add(None, "parse u%d mem %s" % (u, q(t)))

    def setup(a):
        b.add(None, "acreate %s" % a)
        if not sol:
            b.add(None, "archive_disable_solitary_unit %s" % a)
        b.add(None, "archive_set_xml_encoding %s %s" % (a, q(xenc)))

    def write(a, base, key):
        for k in range(n):
            b.add("%sw%d" % (key, k), "archive_write_unit %s u%d" % (a, base + k))
        b.add(None, "archive_close %s" % a)
    # the fault-free run
    setup("a0")
    units("a0", 0)
    if unparse:
        b.add(None, "wopen a0 mem m0")
        write("a0", 0, "ref")
        b.add(None, "acreate a1")
        b.add(None, "ropen a1 mem m0")
        b.add(None, "read u20 a1")
        b.add(None, "unit_set_eol u20 %d" % r.choice([0, 1, 2, 3]))
        b.add("refst", "unparse u20 mem m1")
        b.add("ref", "mem m1")
    else:
        b.add(None, "wopen a0 io 1")
        write("a0", 0, "ref")
        b.add("ref", "wdata 1")
    size = sum(len(t) for _, t, _ in texts)
    est = size if unparse else size * 4 + 300
    where = r.choice([0, 1, 10, r.randrange(est + 1), r.randrange(est + 1), r.randrange(est + 1), r.randrange(min(est, 5000) + 1)])
    k = r.random()
    fault = None
    if k < .5:
        kind, dest = "io", "2 fail=%d;failret=%d;part=%d" % (where, r.choice([-1, -1, -1, -5]), r.choice([0, 0, 1]))
        if r.random() < .15:
            dest = "2 close=-1"
            where = 1 << 30
    elif k < .65:
        kind = r.choice(["file", "fd", "FILE"])
        dest = "'out"
        fault = ("fsize %d" % where, "fsize -1")
    elif k < .75:
        kind, z = "file", r.choice(OUT_NAMES)
        dest = z[1]
        kind = "file:" + z[0]
    elif k < .9:
        z = r.choice(["ro", "full", "epipe", "dir"])
        kind, dest = r.choice(["xfd", "xFILE"]), z
    else:
        kind, dest, fault = "file:none-left", "'out", ("nofile 0", "nofile -1")
    real = kind.split(":")[0]
    if unparse:
        if fault:
            b.add(None, fault[0])
        b.add("st", "unparse u20 %s %s" % (real, dest))
        if fault:
            b.add(None, fault[1])
    else:
        setup("a2")
        units("a2", 100)
        if fault:
            b.add(None, fault[0])
        b.add("open", "wopen a2 %s %s" % (real, dest))
        write("a2", 100, "")
        if fault:
            b.add(None, fault[1])
        b.add(None, "flushall")
    if real == "io":
        b.add("data", "wdata 2")
    elif dest == "'out":
        b.add("data", "slurp b101 'out")
    # afterwards
    if unparse:
        b.add("against", "unparse u20 mem m2")
        b.add("again", "mem m2")
    else:
        b.add("againopen", "wopen a2 mem m2")
        b.add("againw", "archive_write_unit a2 u100")
        b.add(None, "archive_close a2")
        b.add(None, "afree a2")
    M.update(kind=("unparse-" if unparse else "write-") + kind + ("-fsize" if fault and "fsize" in fault[0] else ""), fd=dest, n=n, where=where, unparse=unparse, real=real, sol=sol)
    return b.c


def transform_case(r, i):
    b = B("t" + i, r)
    b.add(None, "acreate a0")
    b.add(None, "mkdir 'sub")
    b.add(None, "ucreate u0 a0")
    b.add(None, "unit_set_language u0 'C++")
    b.add(None, "parse u0 mem 'a;")
    b.add("before", "unit_get_srcml u0")
    op = r.choice(["xslt", "relaxng"])
    z = r.choice(IN_NAMES + [("fd", None), ("none", "'s")])
    if z[0] == "none":
        b.add(None, "put 's '<a/>")
        b.add(None, "nofile 0")
    b.add("st", "%s a0 %s" % (op, "badfd -1" if z[0] == "fd" else "name " + z[1]))
    if z[0] == "none":
        b.add(None, "nofile -1")
    b.add("apply", "apply a0 u0 r0")
    b.add("after", "unit_get_srcml u0")
    w = r.choice(IN_NAMES)
    b.add("conv", "srcml %s 'out.xml" % w[1])
    b.add(None, "put 'g.cpp 'a;")
    w2 = r.choice(OUT_NAMES[:3])
    b.add("conv2", "srcml 'g.cpp %s" % w2[1])
    b.c.meta.update(kind="transform-%s-%s" % (op, z[0]), n2=w2[0], n1=w[0])
    return b.c


def make(r, i, ctx):
    k = r.random()
    return (parse_case if k < .3 else read_case if k < .55 else write_case if k < .95 else transform_case)(r, i)


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L, at = c.meta, x.lines, c.meta["at"]
    kind = M["kind"]

    def bad(k, what):
        ctx.violation("%s-%s" % (k, kind), "%s (%s, fault at %s)" % (what, kind, M.get("where")), [c])

    def g(k, d=0):
        return L[at[k] + d]
    e = next((l for l in L if l.startswith("!")), None)
    if e:
        return bad("exception", e[:300])
    if c.leak:
        ctx.tally("leak_checked")
        if x.alloc and min(x.alloc) > 0:
            bad("leak", "bytes still allocated after each of four runs: %s" % x.alloc)
        if x.fds:
            bad("descriptors", "descriptors left open: %s" % x.fds)
        if x.nthreads and x.nthreads > 0:
            bad("threads", "threads left: %s" % x.nthreads)
    ctx.tally(kind)
    if kind.startswith("parse"):
        st = g("st").split(" ")
        if kind == "parse-io":
            if st[1] != "closed=1" or st[3] != "after=0":
                return bad("callbacks", "callbacks of a failing parse: %s" % g("st"))
            if st[0] == "0":
                for z in ("srcml", "hash", "loc"):
                    if g("x" + z) != g("p" + z):
                        return bad("not-prefix", "%s is not that of the %d bytes delivered: %r, %r" % (z, M["prefix"], g("x" + z)[:300], g("p" + z)[:300]))
            ctx.tally("parse_prefix" if st[0] == "0" else "parse_status")
        elif st[0] == "0" and kind == "parse-no-descriptors" and ">a<" in g("xsrcml"):
            ctx.tally("descriptor_found")
        elif st[0] == "0" and kind.startswith("parse-name-") and "directory" not in kind or st[0] == "0" and kind == "parse-no-descriptors":
            return bad("no-status", "the parse returned %s" % st[0])
        elif st[0] == "0" and "inner" in g("xsrcml") or not re.match(r"^(~|'<unit[^>]*(/>|></unit>))$", g("xsrcml")):
            return bad("content", "a source that cannot be read gave %s" % g("xsrcml")[:300])
        if g("again") != "0" or g("asrcml") != g("bsrcml") or g("ahash") != g("bhash"):
            return bad("afterwards", "the unit afterwards parses to %s %r, another one %r" % (g("again"), g("asrcml")[:300], g("bsrcml")[:300]))
        ctx.seen((kind, M["src"], M["where"]))
    elif kind.startswith("read"):
        st = g("st").split(" ")[0]
        if M["prefix"] is not None:
            ref = g("ref").split(" ")[0]
            for n in M["reads"]:
                if g("r%d" % n) != g("q%d" % n) or g("r%d" % n, 1) != g("q%d" % n, 1):
                    if st != "0" and g("r%d" % n) == "0":
                        continue
                    return bad("not-prefix", "read %d is %s %r, of the bytes delivered %s %r" % (n, g("r%d" % n), g("r%d" % n, 1)[:300], g("q%d" % n), g("q%d" % n, 1)[:300]))
            s = g("stat")
            if "closed=1" not in s or "after=0" not in s:
                return bad("callbacks", "callbacks of a failing reader: %s" % s)
            ctx.tally("read_units", sum(g("r%d" % n) == "1" for n in M["reads"]))
        else:
            if st == "0" and "descriptors" in kind and all(g("r%d" % n, e) == g("f%d" % n, e) for n in M["reads"] for e in (0, 1)):
                ctx.tally("descriptor_found")      # one was closed in between: everything was read, so there was no fault
                return
            if st == "0" and ("name" in kind or "descriptors" in kind) and "directory" not in kind:
                return bad("no-status", "opening returned %s" % st)
            if any(g("r%d" % n) != "0" for n in M["reads"]):
                return bad("content", "a unit was read")
        if g("again") != "0" or g("again1") != "1":
            return bad("afterwards", "opening the document again gives %s, reading %s" % (g("again"), g("again1")))
        ctx.seen((kind, M["src"], M["where"]))
    elif kind.startswith("transform"):
        if g("st") == "0":
            return bad("no-status", "appending returned 0")
        if g("before") != g("after"):
            return bad("modified", "the unit changed from %r to %r" % (g("before")[:200], g("after")[:200]))
        if g("conv") == "0":
            return bad("convenience-input", "srcml() of an input that cannot be read (%s) returned 0" % M["n1"])
        if g("conv2") == "0":
            return bad("convenience-output", "srcml() to an output that cannot be written (%s) returned 0" % M["n2"])
        ctx.seen((kind, M["n1"], M["n2"]))
    else:
        ref = unq(g("ref").split(" ")[0]) or b""
        sts = [g("st")] if M["unparse"] else [g("open")] + [g("w%d" % k) for k in range(M["n"])]
        failed = any(s != "0" for s in sts)
        if any(s.startswith("!") for s in sts):
            return bad("status", str(sts))
        opened = sts[0] == "0"
        lost = False
        if "data" in at:
            p = g("data").split(" ")
            data = unq(p[0]) or b"" if p[0] != "~" else b""
            if not ref.startswith(data):
                k = next((k for k in range(min(len(ref), len(data))) if ref[k] != data[k]), min(len(ref), len(data)))
                return bad("not-prefix", "the bytes delivered are not a prefix: from byte %d of %d %r, correct %r" % (k, len(data), data[max(0, k - 60):k + 60], ref[max(0, k - 60):k + 60]))
            lost = len(data) < len(ref)
            if M["real"] == "io":
                if p[1] != "closed=1" or p[4] != "after=0":
                    return bad("callbacks", "callbacks of a failing writer: %s" % p[1:])
            if not lost and M["where"] >= len(ref) and failed and "none-left" not in kind and "close=-1" not in M["fd"]:
                return bad("spurious", "nothing failed, statuses %s" % sts)
            if "fsize" in kind and len(data) > M["where"]:
                return bad("harness", "more than the limit written")
        else:
            lost = bool(ref)
        if M["unparse"] and lost and not failed and M["real"] not in ("xFILE", "FILE"):
            return bad("silent", "unparsing lost %s of %d bytes and returned 0" % (len(ref) - len(data) if "data" in at else "all", len(ref)))
        if not M["unparse"] and not failed and kind.startswith("write-file:") and "full" not in kind:
            return bad("silent", "opening an output that cannot be opened returned %s" % sts)
        ctx.tally("reported" if failed else "lost_visible" if lost else "no_fault_met")
        if M["unparse"]:
            if g("against") != "0" or (unq(g("again")) or b"") != ref:
                return bad("afterwards", "unparsing again gives %s %r, before %r" % (g("against"), g("again")[:300], ref[:300]))
        elif g("againopen") != "0" or g("againw") != "0":
            return bad("afterwards", "writing again gives %s %s" % (g("againopen"), g("againw")))
        ctx.seen((kind, ref, M["where"]), failed or lost)


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(6000, 120000), make, judge, chunk=48, batch=16, tag="a")
