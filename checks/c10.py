"""C10: results depend only on inputs."""
import blocks
from vrun import Case, Pool

RULE = ("self-contained pieces of API use (parse and write, read, transform, write functions, clones; including failing ones) are run in a process of their own, in a row, "
        "in another order, and interleaved operation by operation with each other in one long-lived process; each must print the same, and repetitions and clones within a piece "
        "must agree; non-trivial: a piece observed in at least two contexts, counted as distinct pieces")


def make(r, i, ctx):
    n = r.randint(2, 7)
    bs = [blocks.block(r) for _ in range(n)]
    if r.random() < .3:
        bs[r.randrange(n)] = bs[r.randrange(n)]      # the same piece twice
    out = []

    def case(tag, order, mix):
        c = Case("%s%s" % (tag, i), limit=60, at=None)
        where = [[] for _ in bs]
        if not mix:
            for k in order:
                for l in bs[k].render(k):
                    where[k].append(len(c.lines))
                    c.add(l)
        else:
            todo = {k: list(reversed(bs[k].render(k))) for k in order}
            burst = r.choice([1, 1, 3, 10])
            while todo:
                k = r.choice(list(todo))
                for _ in range(r.randint(1, burst)):
                    if not todo[k]:
                        break
                    where[k].append(len(c.lines))
                    c.add(todo[k].pop())
                if not todo[k]:
                    del todo[k]
        c.meta["where"] = where
        return c
    o = list(range(n))
    out.append(case("r", o, False))
    p = o[:]
    r.shuffle(p)
    out.append(case("s", p, False))
    out.append(case("m", o, True))
    r.shuffle(out)
    out[0].meta["blocks"] = bs
    out[0].meta["fresh"] = r.sample(o, 2 if n > 2 else 1)
    return out


def judge(ctx, cs, xs):
    for c, x in zip(cs, xs):
        if ctx.crash(c, x):
            return
    bs = cs[0].meta["blocks"]
    P = Pool(ctx.c10_driver, 1)
    for k, b in enumerate(bs):
        views = [(c.name[0], [x.lines[p] for p in c.meta["where"][k]]) for c, x in zip(cs, xs)]
        if k in cs[0].meta["fresh"]:
            f = Case("f", b.render(k), limit=60)
            res, err, rc, to = P._proc([f])
            y = res.get("f")
            if y is None or not y.done:
                return ctx.violation("alone", "the piece ends abnormally (%s) only when run alone: %s" % (rc, err[-2000:]), [f])
            views.append(("fresh", y.lines))
            ctx.tally("fresh_processes")
        ref = views[-1]
        for v in views:
            if v[1] != ref[1]:
                p = next(p for p in range(len(ref[1])) if v[1][p] != ref[1][p])
                op = b.ops[p]
                return ctx.violation("%s-%s-%s" % (b.kind, op[0], "history" if v[0] in "rs" else "interleaving"),
                                     "piece %d, operation %d %s: %s in one context (%s), %s in another (%s)" % (k, p, " ".join(map(str, op))[:200], v[1][p][:600], v[0], ref[1][p][:600], ref[0]), cs)
        for p, y in b.same:
            if ref[1][p] != ref[1][y]:
                return ctx.violation("%s-%s-repetition" % (b.kind, b.ops[p][0]), "operation %d %s printed %s, its repetition (%d, %s) printed %s" % (p, " ".join(map(str, b.ops[p]))[:200], ref[1][p][:600], y, " ".join(map(str, b.ops[y]))[:100], ref[1][y][:600]), cs)
        ctx.tally("pieces_" + b.kind)
        ctx.tally("observations", len(ref[1]) * len(views))
        ctx.seen(tuple(ref[1]), len(views) > 1)


def run(ctx):
    ctx.rule = RULE
    import vctx
    vctx.Ctx.c10_driver = ctx.pool("full").driver
    ctx.fan(ctx.n(1500, 40000), make, judge, chunk=20, batch=60, tag="a")
