"""C11: concurrent use of separate archives is race-free and changes no result."""
import re
import blocks, gen
from vrun import Case, q, unq

RULE = ("2-8 threads each run 1-3 self-contained pieces of API use (parse and write over all channels, read, transform, write functions, clones), or parse the units of one shared "
        "archive with the writing serialised (in any order, and in the order of the units); each thread must print exactly what it prints when it runs alone, the shared document must "
        "be the sequential one (same units when the order is free), and no data race, deadlock or memory error may be reported. Run with ThreadSanitizer, and with ASan+UBSan under "
        "injected delays and spurious wake-ups; many processes begin with threads, so that first uses are concurrent; non-trivial: at least two threads, counted as distinct outputs")


def threads(lines):
    """the output of each thread"""
    out, cur = {}, None
    for l in lines:
        if l.startswith("@thread "):
            cur = out.setdefault(int(l.split()[1]), [])
        elif l == "@endpar":
            cur = None
        elif cur is not None:
            cur.append(l)
    return out


def make_pieces(r, i, ctx):
    n = r.choice([2, 2, 3, 4, 6, 8])
    same = r.random() < .3
    kind = r.choice([None, None, None, blocks.p_parse, blocks.p_parse, blocks.p_read, blocks.p_read, blocks.p_xpath, blocks.p_write, blocks.p_clone])

    def one():
        return [(kind or r.choice(blocks.KINDS))(r) for _ in range(r.choice([1, 1, 2, 3]))]
    first = one()
    bs = [first if same or k == 0 else one() for k in range(n)]
    lim = r.choice([[1, 3, 10], [1, 3, 10], [0]])
    c = Case("p" + i, limit=120, kind="pieces")
    c.add("inject", r.choice(lim), r.choice([0, 0, 1, 2]) if lim[0] else 0, r.randrange(1 << 20))
    c.add("par")
    for k, b in enumerate(bs):
        for j, x in enumerate(b):
            for l in x.render(j):
                c.add("%d|%s" % (k, l))
    c.add("endpar")
    s = Case("s" + i, limit=120)
    s.add("inject 0 0 0")
    for k, b in enumerate([first] if same else bs):
        s.add("par")
        for j, x in enumerate(b):
            for l in x.render(j):
                s.add("%d|%s" % (k, l))
        s.add("endpar")
    c.meta.update(bs=bs, same=same)
    return [c, s]


def make_shared(r, i, ctx):
    n = r.choice([2, 3, 4, 8])
    m = r.choice([n, 2 * n, 10, 20])
    ordered = r.random() < .5
    head = ["acreate a0"]
    b = blocks.Block("x")
    blocks.settings(r, b, blocks.A(0))
    head += b.render(0)
    head.append("archive_disable_solitary_unit a0")
    kind = r.choice(["mem", "mem", "io"])
    head.append("wopen a0 %s %s" % (kind, "m0" if kind == "mem" else "7"))
    mainown = r.random() < .5
    jobs, work = [], []
    lang = r.choice(gen.LANGS)
    text = None
    for u in range(m):
        l = []
        L = r.choice(gen.LANGS) if r.random() < .7 else lang
        if not mainown:
            l.append("ucreate u%d a0" % u)
        if r.random() < .9:
            l.append("unit_set_language u%d %s" % (u, q(L)))
        l.append("unit_set_filename u%d %s" % (u, q("f%d" % u)))
        if r.random() < .8:
            l.append("unit_set_src_encoding u%d %s" % (u, q(r.choice(["UTF-8", "UTF-8", "ISO-8859-1"]))))
        if text is None or r.random() < .7:
            text = blocks.source(r, L, 3000)
        l.append("parse u%d %s %s" % (u, r.choice(["mem", "mem", "file", "FILE", "fd", "io"]), q(text)))
        for g in ("srcml", "srcml_outer", "srcml_inner", "hash", "loc", "language", "src_encoding"):
            if r.random() < .4:
                l.append("unit_get_%s u%d" % (g, u))
        work.append(l)
    pre = ["ucreate u%d a0" % u for u in range(m)] if mainown else []
    tail = ["archive_close a0"] + (["mem m0"] if kind == "mem" else ["wdata 7"])

    def case(name, nt, order):
        c = Case(name + i, limit=120, kind="shared", ordered=ordered)
        c.add("inject", r.choice([1, 3, 10]) if nt > 1 else 0, r.choice([0, 1, 2]) if nt > 1 else 0, r.randrange(1 << 20))
        for l in head + pre:
            c.add(l)
        c.add("par")
        for t in range(nt):
            c.add("%d|borrow a0" % t)
        for u in range(m):
            t = u % nt
            if mainown:
                c.add("%d|take u%d" % (t, u))
            for l in work[u]:
                c.add("%d|%s" % (t, l))
            c.add("%d|%s" % (t, "owrite a0 u%d %d" % (u, u) if order else "lwrite a0 u%d" % u))
            if order and ufree[u]:
                c.add("%d|ufree u%d" % (t, u))
        c.add("endpar")
        for l in tail:
            c.add(l)
        return c
    ufree = [r.random() < .3 for _ in range(m)]
    c, s = case("h", n, ordered), case("q", 1, ordered)
    c.meta.update(n=n, m=m, kind="shared")
    return [c, s]


def make(r, i, ctx):
    return (make_pieces if r.random() < .6 else make_shared)(r, i, ctx)


def judge(ctx, cs, xs):
    c, x = cs[0], xs[0]
    for cc, y in zip(cs, xs):
        if ctx.crash(cc, y):
            return
    got, ref = threads(x.lines), threads(xs[1].lines)
    if c.meta["kind"] == "pieces":
        for k in sorted(got):
            want = ref.get(0 if c.meta["same"] else k)
            if got[k] != want:
                p = next((p for p in range(min(len(got[k]), len(want))) if got[k][p] != want[p]), -1)
                ops = [o for b in c.meta["bs"][k] for o in b.ops]
                return ctx.violation("result-%s" % ops[p][0], "thread %d, operation %d %s printed %s, alone %s" % (k, p, " ".join(map(str, ops[p]))[:200], got[k][p][:600], want[p][:600]), cs)
        ctx.tally("threads", len(got))
        ctx.seen(tuple(map(tuple, got.values())), len(got) > 1)
        return
    n, m = c.meta["n"], c.meta["m"]
    # one operation of a unit follows the other; thread t has the units t, t+n, ...
    seq = ref[0][1:]
    ops = [l[2:] for l in cs[1].lines if l.startswith("0|")][1:]
    per = [[] for _ in range(n)]
    for l, v in zip(ops, seq):
        u = next(int(t[1:]) for t in l.split()[1:] if t[0] == "u" and t[1:].isdigit())
        per[u % n].append((l, v))
    for t in range(n):
        for (l, v), w in zip(per[t], got[t][1:]):
            if v != w:
                return ctx.violation("shared-%s" % l.split()[0], "thread %d, %s printed %s, sequentially %s" % (t, l[:200], w[:600], v[:600]), cs)
        if len(per[t]) != len(got[t]) - 1:
            return ctx.violation("shared-missing", "thread %d printed %d lines instead of %d" % (t, len(got[t]) - 1, len(per[t])), cs)
    a, b = re.sub(" calls=[0-9]*", "", x.lines[-1]), re.sub(" calls=[0-9]*", "", xs[1].lines[-1])
    if a.split(" ")[1:] != b.split(" ")[1:]:
        return ctx.violation("shared-closing", "the output is %s, sequentially %s" % (a.split(" ")[1:], b.split(" ")[1:]), cs)
    a, b = a.split(" ")[0], b.split(" ")[0]
    if c.meta["ordered"]:
        if a != b:
            return ctx.violation("shared-document", "the archive written is %s, sequentially %s" % (a[:1500], b[:1500]), cs)
    else:
        A, B = unq_units(a), unq_units(b)
        if A != B:
            return ctx.violation("shared-units", "the archive written has other units: %s, sequentially %s" % (diff(A, B)), cs)
    ctx.tally("shared_units", m)
    ctx.sample("shared archive, %d threads, %d units, %s: %s" % (n, m, "in order" if c.meta["ordered"] else "any order", a[:300]))
    ctx.tally("threads", n)
    ctx.seen((x.lines[-1], tuple(map(tuple, got.values()))), True)


def unq_units(v):
    """the units of a document, in any order"""
    if "'" not in v:
        return v
    d = unq(v)
    for e in ("utf-16", "utf-8", "latin-1"):
        if e == "utf-16" and d[:2] not in (b"\xff\xfe", b"\xfe\xff"):
            continue
        try:
            d = d.decode(e)
            break
        except UnicodeDecodeError:
            pass
    p = re.split("(?=<[^<>/? ]*unit[ >])", re.sub("\\s*</[^<>]*unit>\\s*$", "", d))
    return p[0], sorted(x.strip() for x in p[1:])


def diff(A, B):
    if isinstance(A, str) or isinstance(B, str) or A[0] != B[0]:
        return repr(A)[:700], repr(B)[:700]
    return [x for x in A[1] if x not in B[1]][:2], [x for x in B[1] if x not in A[1]][:2]


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(700, 12000), make, judge, flavor="tsan", chunk=8, batch=4, tag="t")
    ctx.fan(ctx.n(2500, 40000), make, judge, flavor="full", chunk=16, batch=8, tag="f")
    for k in ("delays", "wakes", "waits"):
        ctx.tally("injected_" + k, sum(p.totals.get(k, 0) for p in ctx.pools.values()))
