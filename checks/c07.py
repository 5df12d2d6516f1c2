"""C07: an archive yields exactly the units written to it, once each and in order."""
import c08, gen, xmlu
from vrun import Case, q, unq

RULE = ("archives of 0-60 units (and solitary units) of random languages, sizes, attributes, options and XML encodings are read by 1-3 interleaved readers over "
        "every channel; each reader performs a random history of read, skip, body access to any unit read so far, unparse, transform and free; the k-th unit "
        "returned is compared with the k-th unit element of the document (read by expat) and with what was written; after the last one only NULL; a copy into a "
        "clone of the reading archive is compared byte for byte; non-trivial: at least two units returned or a body accessed, counted as distinct (history, document)")
KINDS = ["mem", "mem", "file", "FILE", "fd", "pipe", "io", "ionc"]
ACC = ["srcml", "outer", "inner", "unparse", "meta", "xpath", "srcml", "inner"]


def make(r, i, ctx):
    k = r.random()
    n = 0 if k < .05 else 1 if k < .2 else r.randint(2, 8) if k < .93 else r.randint(20, 48)
    c = Case("c" + i, leak=r.random() < .05, n=n, units=[], hist=[], limit=40)
    M = c.meta
    c.add("acreate a0")
    M["solitary"] = n == 1 and r.random() < .6
    if M["solitary"]:
        c.add("archive_enable_solitary_unit a0")
    if r.random() < .2:
        c.add("archive_disable_hash a0")
    opt = gen.options(r)
    M["opt"] = opt
    c.add("archive_enable_option a0", opt)
    nodecl = r.random() < .15
    if nodecl:
        c.add("archive_enable_option a0 2")
    for f in ("url", "version"):
        if r.random() < .25:
            c.add("archive_set_%s a0" % f, q(r.choice(["v1", "a<b&\"'>", "\u00e9\u20ac", "x" * 1200])))
    if r.random() < .15:
        c.add("archive_set_tabstop a0", r.choice([1, 2, 4, 8, 13]))
    if r.random() < .15:
        c.add("archive_register_namespace a0", q(r.choice(["s", "foo", "x1"])), q(r.choice([xmlu.SRC, xmlu.CPP, xmlu.POS, "http://a.b/c"])))
    if r.random() < .1:
        c.add("archive_set_xml_encoding a0", q(r.choice(["ISO-8859-1", "UTF-16", "US-ASCII"])))
    M["wopen"] = len(c.lines)
    c.add("wopen a0 mem m0")
    big = r.random() < .15
    for j in range(n):
        lang = r.choice(gen.LANGS)
        t = gen.anytext(r, lang) if n < 20 else gen.text(r, lang)[:300]
        while len(t) > (12000 if big else 2500):
            t = gen.text(r, lang)
        if r.random() < .04:
            t = r.choice(["", "\n", " ", "a"])
        t = t.replace("\ufffe", "").replace("\uffff", "").lstrip("\ufeff")
        u = dict(lang=lang, text=xmlu.norm(t), meta={})
        c.add("ucreate u%d a0" % j).add("unit_set_language u%d" % j, q(lang)).add("unit_set_src_encoding u%d 'UTF-8" % j)
        for f in ("filename", "version", "timestamp"):
            if r.random() < .35:
                u["meta"][f] = r.choice(["f%d" % j, "a<b>&\"'c", "\u00e9", "d/e.cpp"])
                c.add("unit_set_%s u%d" % (f, j), q(u["meta"][f]))
        u["at"] = len(c.lines)
        c.add("parse u%d mem %s" % (j, q(t))).add("unit_get_srcml_inner u%d" % j).add("unit_get_hash u%d" % j).add("unit_get_loc u%d" % j).add("archive_write_unit a0 u%d" % j)
        M["units"].append(u)
        if r.random() < .5:
            c.add("ufree u%d" % j)
    c.add("archive_close a0")
    M["doc"] = len(c.lines)
    c.add("mem m0")
    # the readers
    R = []
    for w in range(r.choice([1, 1, 2, 3])):
        a = "a%d" % (1 + w)
        kind = r.choice(KINDS)
        plan = "c=%d,%d" % (r.choice([1, 7, 100, 1000]), r.choice([300, 4096, 100000])) if kind in ("io", "ionc", "pipe") else ""
        c.add("acreate %s" % a).add("archive_set_src_encoding %s 'UTF-8" % a)
        if r.random() < .3:
            c.add("inject %d %d %d" % (r.choice([1, 3, 10]), r.choice([0, 1]), r.randrange(1000)))
        R.append(dict(a=a, pos=0, held=[], free=list(range(60 + 60 * w, 60 + 60 * w + 60)), open=len(c.lines), kind=kind, ends=0, h=[], style=r.randrange(4)))
        c.add("ropen %s %s m0 %s" % (a, kind, plan))
    live = list(R)
    steps = 0
    while live and steps < 160:
        steps += 1
        d = r.choice(live)
        p = [.5, .25, .05][d["style"] % 3] if d["style"] < 3 else 1
        if d["held"] and r.random() > p and r.random() < .6:
            slot, idx = d["held"][-1] if r.random() < .4 else r.choice(d["held"])
            w = r.choice(ACC)
            at = len(c.lines)
            if w == "unparse":
                c.add("unparse u%d mem m9" % slot).add("mem m9")
            elif w == "meta":
                for f in ("hash", "loc", "language", "filename", "version", "timestamp"):
                    c.add("unit_get_%s u%d" % (f, slot))
            elif w == "xpath":
                c.add("append_transform_xpath %s 'string(/*)" % d["a"]).add("apply %s u%d r0" % (d["a"], slot)).add("transform_get_string r0").add("clear_transforms %s" % d["a"])
            else:
                c.add("unit_get_%s u%d" % ("srcml" if w == "srcml" else "srcml_" + w, slot))
            M["hist"].append(("acc", at, idx, w))
            d["h"].append((w, idx))
        elif d["held"] and r.random() < .15:
            slot, idx = d["held"].pop(r.randrange(len(d["held"])))
            c.add("ufree u%d" % slot)
            d["free"].append(slot)
            d["h"].append(("free", idx))
        else:
            skip = r.random() < .3
            if not d["free"]:
                slot, idx = d["held"].pop(0)
                c.add("ufree u%d" % slot)
                d["free"].append(slot)
            at = len(c.lines)
            past = d["pos"] >= n
            if skip:
                c.add("archive_skip_unit %s" % d["a"])
            else:
                slot = d["free"].pop(0)
                c.add("read u%d %s" % (slot, d["a"]))
            M["hist"].append(("skip" if skip else "read", at, d["pos"], past))
            d["h"].append("S" if skip else "R")
            if past:
                d["ends"] += 1
                if not skip:
                    d["free"].append(slot)
                if d["ends"] >= 3 or r.random() < .4:
                    live.remove(d)
            else:
                if not skip:
                    d["held"].append((slot, d["pos"]))
                d["pos"] += 1
    # the copy
    M["copy"] = []
    M["order"] = [tuple(map(str, d["h"])) for d in R]
    c.add("inject 0 0 1")
    keep_open = r.random() < .3
    for w, d in enumerate(R[:1]):
        for s, _ in d["held"]:
            if r.random() < .5:
                c.add("ufree u%d" % s)
        if not keep_open:
            c.add("archive_close %s" % d["a"])
    c.add("acreate a20").add("ropen a20 %s m0" % r.choice(["mem", "file"]))
    held = r.random() < .3
    c.add("aclone a21 a20")
    if nodecl:
        c.add("archive_enable_option a21 2")       # not recorded in the document
    M["sol_get"] = len(c.lines)
    c.add("archive_is_solitary_unit a21").add("wopen a21 mem m1")
    acc = r.random() < .3
    if held:
        for j in range(n):
            c.add("read u%d a20" % j)
        for j in range(n):
            if acc:
                c.add("unit_get_srcml u%d" % j)
            c.add("archive_write_unit a21 u%d" % j)
    else:
        for j in range(n):
            c.add("read u250 a20")
            if acc:
                c.add("unit_get_srcml_outer u250")
            c.add("archive_write_unit a21 u250")
    if r.random() < .5:
        c.add("archive_close a20")
    c.add("archive_close a21")
    M["copied"] = len(c.lines)
    c.add("mem m1")
    return c


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    M, L = c.meta, x.lines
    n = M["n"]

    def bad(kind, what):
        ctx.violation(kind, what, [c])

    raw = unq(L[M["doc"]]) or b""
    try:
        doc = xmlu.parse(raw)
    except xmlu.XmlError as e:
        return bad("not-well-formed", str(e))
    el = xmlu.units(doc.root)
    inside = [k for k in doc.root.kids if isinstance(k, xmlu.Node)]
    sol = n == 1 and M["solitary"]
    if sol:
        el = [doc.root]
    if n == 0:
        el = []
    if len(el) != n:
        return bad("units-in-document", "%d units written, %d unit elements in the document" % (n, len(el)))
    U = M["units"]
    for j, u in enumerate(U):
        a = u["at"]
        if L[a].split(" ")[0] != "0" or L[a + 4] != "0":
            return bad("write", "unit %d: parse %s, write %s" % (j, L[a], L[a + 4]))
        if xmlu.text(el[j]) != u["text"]:
            return bad("document-text", "unit %d has text %r, written %r" % (j, xmlu.text(el[j])[:200], u["text"][:200]))
        u["inner"] = L[a + 1]
        u["exp"] = [L[a + 2], L[a + 3], "'" + u["lang"].replace(" ", "%20") if False else q(u["lang"])] + [q(u["meta"][f]) if f in u["meta"] else "~" for f in ("filename", "version", "timestamp")]
        u["canon"] = xmlu.canon(el[j])
    got = 0
    full = {}
    for kind, at, idx, z in M["hist"]:
        if kind in ("read", "skip"):
            exp = "0" if z else "1"
            if n == 0 and L[at] == "1":
                # an archive written with no units is the same document as an empty solitary unit
                ctx.tally("empty_archive")
                return
            if L[at] != exp:
                return bad(kind + ("-past-end" if z else "-missing"), "%s number %d of %d returned %s; readers %s" % (kind, idx, n, L[at], M["order"]))
            got += exp == "1"
            ctx.tally(kind + ("_past_end" if z else ""))
            continue
        u = U[idx]
        ctx.tally("access_" + z)
        if z == "unparse":
            t = unq(L[at + 1])
            e = u["text"].encode()
            if L[at] != "0" or t != e:
                return bad("unparse", "unit %d of %d unparsed to %r (%s), source %r; readers %s" % (idx, n, t and t[:200], L[at], e[:200], M["order"]))
        elif z == "xpath":
            t = unq(L[at + 2])
            e = "".join(k if isinstance(k, str) else "" for k in flat(el[idx])).encode()
            if L[at + 1] != "0" or t != e:
                return bad("transform", "unit %d: string value %r (%s), expected %r" % (idx, t and t[:200], L[at:at + 3], e[:200]))
        elif z == "meta":
            g = L[at:at + 6]
            e = u["exp"]
            if [unq(v) if v.startswith("'") else v for v in g] != [unq(v) if v.startswith("'") else v for v in e]:
                return bad("attributes", "unit %d: %s, written %s" % (idx, g, e))
        elif z == "inner":
            if L[at] != u["inner"] and not same_inner(ctx, u["inner"], L[at], doc):
                return bad("inner", "unit %d inner %r, written %r; readers %s" % (idx, (unq(L[at]) or b"")[:300], (unq(u["inner"]) or b"")[:300], M["order"]))
        elif z == "srcml":
            k = (idx, z)
            if k in full:
                if full[k] != L[at]:
                    return bad("srcml-differs", "unit %d: %r then %r" % (idx, full[k][:300], L[at][:300]))
                continue
            full[k] = L[at]
            try:
                nd = xmlu.parse(b"<?xml version='1.0' encoding='UTF-8'?>" + (unq(L[at]) or b"")).root
            except xmlu.XmlError as e:
                return bad("srcml-not-well-formed", "unit %d: %s: %r" % (idx, e, L[at][:300]))
            if xmlu.canon(strip(nd)) != xmlu.canon(strip(el[idx])):
                return bad("srcml", "unit %d: %r is not the unit %r; readers %s" % (idx, xmlu.canon(nd)[:400], u["canon"][:400], M["order"]))
        else:
            k = (idx, z)
            if full.setdefault(k, L[at]) != L[at]:
                return bad("outer-differs", "unit %d: %r then %r" % (idx, full[k][:300], L[at][:300]))
            e = c08.outer_error(doc.root, el[idx], (unq(L[at]) or b"").decode())
            if e:
                return bad("outer", "unit %d: %s; readers %s" % (idx, e, M["order"]))
    cp = unq(L[M["copied"]]) or b""
    if n and cp != raw:
        k = next((k for k in range(min(len(cp), len(raw))) if cp[k] != raw[k]), min(len(cp), len(raw)))
        return bad("copy", "the copy differs from byte %d: %r, original %r" % (k, cp[max(0, k - 80):k + 80], raw[max(0, k - 80):k + 80]))
    ctx.seen((raw, tuple(M["order"])), got > 1 or len(M["hist"]) > 3)
    ctx.tally("documents")
    ctx.tally("units_written", n)
    if c.leak and x.alloc and min(x.alloc) > 0:
        bad("leak", "bytes still allocated after each of four runs: %s" % x.alloc)


def flat(n):
    out = []
    st = [n]
    while st:
        k = st.pop()
        if isinstance(k, str):
            out.append(k)
        else:
            st.extend(reversed(k.kids))
    return out


def strip(n):
    for a in [("", "revision")]:
        n.attrs.pop(a, None)
    return n


def same_inner(ctx, a, b, doc):
    """the same infoset, in the XML encodings that need character references"""
    try:
        w = b"<?xml version='1.0' encoding='UTF-8'?><x xmlns='http://www.srcML.org/srcML/src' " + b" ".join(b"xmlns%s='%s'" % ((b":" + p.encode() if p else b""), u.encode()) for p, u in ns_of(doc) if p) + b">%s</x>"
        return xmlu.canon(xmlu.parse(w % (unq(a) or b"")).root) == xmlu.canon(xmlu.parse(w % (unq(b) or b"")).root)
    except xmlu.XmlError:
        return False


def ns_of(doc):
    d = {}
    for n in doc.root.iter():
        for p, u in n.decls:
            d.setdefault(p, u)
    return d.items()


def tree(r, d, env, budget):
    """random srcML content that uses the prefixes of env"""
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        budget[0] -= 1
        if budget[0] < 0:
            break
        if r.random() < .4 or d > 4:
            out.append(r.choice(["a", " ", "\n", "&lt;", "x = 1;", "&amp;", "\u00e9", ">"]))
            continue
        pre = r.choice(list(env))
        n = (pre + ":" if pre else "") + r.choice(["expr", "name", "a", "directive", "block"])
        e2 = dict(env)
        dec = ""
        if r.random() < .08:
            p2, u2 = r.choice([("loc", "urn:loc"), ("x", "urn:x2"), ("", "urn:dflt")])
            e2[p2] = u2
            dec = ' xmlns%s="%s"' % (":" + p2 if p2 else "", u2)
        at = ""
        if r.random() < .3:
            ap = r.choice([p for p in e2 if p] or [""])
            at = " %sq=\"%s\"" % (ap + ":" if ap else "", r.choice(["v", "1:2", "&lt;", "a&quot;b"]))
        out.append("<%s%s%s>%s</%s>" % (n, dec, at, "".join(tree(r, d + 1, e2, budget)), n))
    return out


URIS = [("cpp", xmlu.CPP), ("pos", xmlu.POS), ("omp", xmlu.OMP), ("x", "http://x"), ("y", "http://y?a&amp;b"), ("z", "urn:z"), ("xx", "http://x/x")]


def make_cross(r, i, ctx):
    """units of documents that declare prefixes anywhere, written to archives with other settings"""
    c = Case("x" + i, leak=r.random() < .05, units=[], writes=[], reads=[])
    pick = [("", xmlu.SRC)] if r.random() < .8 else [("src", xmlu.SRC)]
    for p, u in URIS:
        if r.random() < .4:
            pick.append((p if r.random() < .8 else p + "2", u))
    solitary = r.random() < .3
    rootenv = {p: u for p, u in pick if solitary or u == xmlu.SRC or r.random() < .6}
    rootdec = [(p, u) for p, u in rootenv.items()]
    if r.random() < .3:
        r.shuffle(rootdec)

    def decls(l):
        return "".join(' xmlns%s="%s"' % (":" + p if p else "", u) for p, u in l)
    n = 1 if solitary else r.choice([1, 1, 2, 3])
    bodies = []
    s = pick[0][0]
    ut = (s + ":" if s else "") + "unit"
    for k in range(n):
        env = dict(rootenv)
        dec = []
        for p, u in pick:
            if not solitary and (p not in rootenv or r.random() < .2):
                dec.append((p, u))
                env[p] = u
        if not solitary and r.random() < .1 and env.get("x"):
            dec = [d for d in dec if d[0] != "x"] + [("x", "http://redeclared")]
            env["x"] = "http://redeclared"
        body = "".join(tree(r, 0, env, [25]))
        at = ' language="C" filename="f%d"' % k + (r.choice(["", ' x:k="v"']) if env.get("x") else "")
        if r.random() < .3:
            # further attributes, whose values may be the names of others
            names = r.sample(["k", "key", "v", "item", "x-y", "a.b", "\u00e9"] + ([p + ":" + w for p in env if p and env[p] not in (xmlu.CPP, xmlu.POS, xmlu.SRC) for w in ("k", "z")] if r.random() < .6 else []), r.randint(1, 4))
            at = "".join(r.sample([' language="C"', ' filename="f%d"' % k] + [' %s="%s"' % (w, r.choice(names + ["v", "", "&lt;&amp;&quot;'", "a b", "language", "\u00e9"])) for w in names], len(names) + 2))
        bodies.append("<%s%s revision=\"1.0.0\"%s>%s</%s>" % (ut, decls(rootdec) if solitary else decls(dec), at, body, ut))
    doc = bodies[0] if solitary else "<%s%s revision=\"1.0.0\">\n\n%s\n\n</%s>" % (ut, decls(rootdec), "\n\n".join(bodies), ut)
    try:
        d = xmlu.parse(doc)
    except xmlu.XmlError:
        return None
    c.meta["units"] = [xmlu.canon(strip_x(u)) for u in (xmlu.units(d.root) or [d.root])]
    c.add("src b0", q(doc)).add("acreate a0").add("ropen a0 %s b0" % r.choice(["mem", "file", "io"]))
    for w in (1, 2):
        c.add("acreate a%d" % w)
        if n == 1 and r.random() < .4:
            c.add("archive_enable_solitary_unit a%d" % w)
        if r.random() < .4:
            c.add("archive_set_options a%d %d" % (w, r.choice([4, 8, 12, 2, 44])))
        for p, u in r.sample(pick, r.choice([0, 0, 1, 2]) % (len(pick) + 1)):
            if u != xmlu.SRC:
                c.add("archive_register_namespace a%d" % w, q(p), q(u.replace("&amp;", "&")))
        if r.random() < .15:
            c.add("archive_register_namespace a%d" % w, q("other"), q("http://x"))
        c.add("wopen a%d mem m%d" % (w, w))
    for k in range(n):
        c.add("read u%d a0" % k)
        if r.random() < .5:
            c.meta["reads"].append((len(c.lines), k))
            c.add("unit_get_srcml u%d" % k)
        for w in (1, 2):
            c.add("archive_write_unit a%d u%d" % (w, k))
    if r.random() < .3:
        c.add("afree a0")
    for w in (1, 2):
        c.add("archive_close a%d" % w)
        c.meta["writes"].append(len(c.lines))
        c.add("mem m%d" % w)
        # and once more from there
        c.add("acreate a%d" % (w + 4)).add("ropen a%d mem m%d" % (w + 4, w))
        for k in range(n):
            c.add("read u%d a%d" % (w * 10 + k, w + 4))
            c.meta["reads"].append((len(c.lines), k))
            c.add("unit_get_srcml u%d" % (w * 10 + k))
    return c


def strip_x(n):
    n.attrs = {k: v for k, v in n.attrs.items() if k not in (("", "revision"), ("", "options"), (xmlu.POS, "tabs"), ("", "hash"))}
    return n


def judge_cross(ctx, c, x):
    if x.crash:
        return ctx.crash(c, x)
    if not x.done:
        return
    M, L = c.meta, x.lines
    if c.leak and x.alloc and min(x.alloc) > 0:
        return ctx.violation("leak", "allocated bytes grow with every repetition: %r" % (x.alloc,), [c])

    def one(b, where, want):
        try:
            root = xmlu.parse(b or b"").root
            us = xmlu.units(root) or [root]
        except xmlu.XmlError as e:
            return ctx.violation("cross", "%s is not well-formed (%s): %r" % (where, e, (b or b"")[:600]), [c])
        got = [xmlu.canon(strip_x(u)) for u in us]
        if got != want:
            return ctx.violation("cross", "%s has %s instead of %s" % (where, str(got)[:600], str(want)[:600]), [c])
        ctx.tally("cross_units", len(got))
    for k, u in M["reads"]:
        one(unq(L[k]), "srcML of a unit", [M["units"][u]])
    for k in M["writes"]:
        one(unq(L[k]), "the document written from units of another", M["units"])
    ctx.seen(("cross",) + tuple(M["units"]), True)


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(5000, 60000), make, judge, chunk=64, batch=16, tag="a")
    ctx.fan(ctx.n(8000, 100000), make_cross, judge_cross, chunk=64, batch=16, tag="x")
