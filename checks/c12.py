"""C12: damaged or abandoned srcML input never crashes, hangs or loses resources."""
import re
import xml.parsers.expat as ex
import blocks, gen, xmlu
from vrun import Case, q, unq

RULE = ("srcML documents (archives and solitary units; prefixes, encodings, comments, CDATA, PIs, entities, deep and long units) truncated at every byte (small ones) or at random, or edited at random "
        "(bytes changed, inserted, removed, slices moved, hostile XML), read through any channel and chunking with random histories of read/skip/access, abandoned at any point (close, free, both), "
        "under injected delays and spurious wake-ups of the reader threads; units complete before the damage must be those of the undamaged document, a unit that is not complete must not be "
        "returned, allocation/descriptor/thread balances must be zero; non-trivial: the document opened and was read, counted as distinct (damaged bytes, history)")
KINDS = ["mem", "mem", "file", "FILE", "fd", "pipe", "io", "ionc"]


def good(r, small=False):
    pre = r.choice(["", "", "", "src:", "x:"])
    ns = 'xmlns%s="%s"' % (":" + pre[:-1] if pre else "", xmlu.SRC)
    cpp = r.choice(["cpp", "cpp", "pp"])
    P = pre
    pieces = ['<%sexpr_stmt><%sexpr><%sname>a</%sname></%sexpr>;</%sexpr_stmt>' % (P, P, P, P, P, P), '<%scomment type="line">// \u00e9 &lt;&amp;&#65;</%scomment>' % (P, P), "\n", "x &gt; y", "\u00e9\u00ff",
              '<%sescape char="0x1b"/>' % P, '<%s:pragma>#<%s:directive>pragma</%s:directive> a</%s:pragma>' % (cpp, cpp, cpp, cpp), "<%semp/>" % P, '<y:b xmlns:y="u:y" y:c="1">t</y:b>']
    rich = ["<!-- c -->", "<![CDATA[ a < b ]]>", "<?pi data?>", "<%sa b='1\n2\t&quot;&#10;'>v</%sa>" % (P, P)]

    def body():
        n = r.choice([0, 1, 2, 3]) if small else r.choice([0, 1, 3, 8, 40, 200])
        e = pieces + (rich if r.random() < .3 else [])
        t = "".join(r.choice(e) for _ in range(n))
        if not small:
            k = r.random()
            if k < .06:
                d = r.choice([50, 200, 255, 300, 1000, 3000])
                t += "<%sblock>" % P * d + "z" + "</%sblock>" % P * d
            elif k < .1:
                t += "<%sliteral>%s</%sliteral>" % (P, "long " * r.choice([1000, 20000, 100000]), P)
            elif k < .13:
                t += "<%sliteral q=\"%s\">v</%sliteral>" % (P, "b" * r.choice([1000, 50000]), P)
        return t

    def attrs(k):
        a = ['revision="1.0.0"', 'language="%s"' % r.choice(gen.LANGS), 'filename="f%d \u00e9"' % k, 'version="v%d"' % k, 'hash="0a%d"' % k, 'timestamp="t"', 'loc="3"', 'q="&amp;&lt;"', 'item="4"']
        keep = [x for x in a if r.random() < .5]
        return "".join(" " + x for x in keep)
    sol = r.random() < .25
    D = ' xmlns:%s="%s"' % (cpp, xmlu.CPP)
    misc = r.choice(["", "", "", "<!-- before -->\n", "<?macro-list token=\"A\" type=\"src:macro\"?>\n", "<?srcML a?>\n", "\n\n"])
    if r.random() < .08:
        misc += r.choice(["<!DOCTYPE unit>", "<!DOCTYPE unit []>", "<!DOCTYPE unit [<!ELEMENT unit ANY>]>"]) + "\n"
    if sol:
        d = '<%sunit %s%s%s>%s</%sunit>' % (P, ns, D, attrs(0), body(), P)
    else:
        n = r.choice([1, 2, 3]) if small else r.choice([1, 2, 4, 9, 30])
        sep = r.choice(["\n\n", "\n\n", "", "\n<!-- s -->\n", "  "])
        us = sep.join('<%sunit%s%s%s' % (P, D, attrs(k), "/>" if r.random() < .05 else ">%s</%sunit>" % (body(), P)) for k in range(n))
        extra = r.choice(["", ' url="u"', ' version="v"', ' xmlns:pos="%s" pos:tabs="4"' % xmlu.POS, ' options="CPP_TEXT_ELSE"'])
        d = '<%sunit %s revision="1.0.0"%s>%s%s%s</%sunit>' % (P, ns, extra, r.choice(["\n\n", "", " "]), us, r.choice(["\n\n", ""]), P)
    tail = r.choice(["\n", "\n", "", "<!-- after -->", "\n\n"])
    enc, codec = r.choice([("UTF-8", "utf-8")] * 4 + [("ISO-8859-1", "latin-1"), ("UTF-16", "utf-16"), (None, "utf-8")])
    decl = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n' % enc if enc else r.choice(["", '<?xml version="1.0"?>\n'])
    t = decl + misc + d + tail
    return t.encode(codec, "xmlcharrefreplace"), sol


class Scan:
    """expat on possibly damaged bytes: the spans of the units, and where the document stops being well-formed"""

    def __init__(self, data, sol, namespaces=True):
        self.units = []      # (start, end, canon)
        self.error = None
        self.structural = False
        wide = data[:2] in (b"\xff\xfe", b"\xfe\xff")
        gt = b">\0" if data[:2] == b"\xff\xfe" else b"\0>" if wide else b">"
        sg = b"/\0>\0" if data[:2] == b"\xff\xfe" else b"\0/\0>" if wide else b"/>"
        p = ex.ParserCreate(namespace_separator="\x01" if namespaces else None)
        if namespaces:
            p.namespace_prefixes = True
        p.buffer_text = True
        st = []
        self.root = None

        def start(n, a):
            u, l, pr = xmlu.split(n) if namespaces else ("", n, None)
            nd = xmlu.Node(u, l, pr, {xmlu.split(k)[:2]: v for k, v in a.items()}, [])
            nd.line = p.CurrentByteIndex
            if st:
                st[-1].kids.append(nd)
            else:
                self.root = nd
            st.append(nd)

        def end(n):
            nd = st.pop()
            if len(st) == (0 if sol else 1):
                k = p.CurrentByteIndex
                if nd.kids or data[k - len(sg):k] != sg:
                    while True:
                        k = data.find(gt, k)
                        if not wide or k < 0 or k % 2 == 0:
                            break
                        k += 1
                    k = k + len(gt) if k >= 0 else len(data)
                self.units.append((nd.line, k, nd))      # the index of an empty tag is past it
            if len(st) == 1 and not sol:
                st[0].kids.pop()

        def chars(s):
            if st:
                st[-1].kids.append(s)
        p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
        try:
            p.Parse(data, True)
        except ex.ExpatError as e:
            self.error = p.ErrorByteIndex
            # errors in the structure, on which every XML parser agrees (the characters of a name, e.g., differ between the editions of XML)
            self.structural = e.code in (3, 5, 7) and not wide
        except Exception:
            self.error = -1


HOSTILE = [b"<", b">", b"&", b"</x>", b"</unit>", b"<unit>", b"<unit/>", b"\x00", b"\x01", b"\xff", b"\xc3", b"\xe2\x82", b"<a>", b'"', b"'", b"=", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<?xml version='1.0'?>",
           b"<!DOCTYPE unit [<!ENTITY a 'x'>]>", b"&a;", b"&#0;", b"&#xFFFF;", b"&lt;", b"xmlns=''", b" xmlns:cpp='u'", b" a='1' a='2'", b"<x:y/>", b" x:y='1'", b"\xef\xbb\xbf", b"\xff\xfe",
           b"<escape char='0x'/>", b"<escape char='zz'/>", b"<escape/>", b"<escape char='0x110000'/>", b"<escape char='99999999999999999999'/>", b" pos:start='1'", b" revision=''", b" language='Foo'", b" tabs='-1'", b" options='X,,'"]
BOMB = b"<?xml version='1.0'?><!DOCTYPE unit [<!ENTITY a0 'aaaaaaaaaa'>" + b"".join(b"<!ENTITY a%d '%s'>" % (k, b"&a%d;" % (k - 1) * 10) for k in range(1, 10)) + b"]><unit xmlns='http://www.srcML.org/srcML/src' revision='1.0.0'>&a9;</unit>"
OTHER = [b"", b"x", b"int a;\n", b"<a/>", b"<!DOCTYPE a>", b"\x00\x01", b"<?xml version='1.0'?>", b"<unit", b"<unit>", b"<unit/>", b"<unit></unit>", b"<unit xmlns='u'/>", b"\xff\xfe", b"\xef\xbb\xbf", b"<", b"PK\x03\x04", b"\x1f\x8b\x08\x00",
         b"<unit xmlns='http://www.srcML.org/srcML/src'><unit><unit/></unit></unit>", b"<a><unit xmlns='http://www.srcML.org/srcML/src'/></a>", b"<unit xmlns='http://www.srcML.org/srcML/src'>" * 400,
         b"<unit xmlns='http://www.srcML.org/srcML/src'" + b" a='" + b"x" * 100000, b"<?xml version='1.0' encoding='FOO'?><unit/>", b"<?xml version='1.0' encoding='UTF-16'?><unit/>", BOMB,
         b"<unit xmlns='http://www.srcML.org/srcML/src'>&undefined;</unit>", b"<s:unit xmlns:s='http://www.srcML.org/srcML/src'/>", b"<s:unit/>"]


def damage(r, d):
    """damaged bytes, the first offset that differs, and whether it is a truncation"""
    k = r.random()
    if k < .3:
        p = r.randrange(len(d) + 1)
        return d[:p], p, True
    p = r.randrange(len(d))
    if r.random() < .5:
        # near markup
        z = [j for j in (d.find(b"<", p), d.find(b">", p), d.find(b'"', p)) if j >= 0]
        if z:
            p = r.choice(z) + r.choice([0, 0, 1])
    if k < .4:
        e = d[:p] + bytes([r.randrange(256)]) + d[p + 1:]
    elif k < .65:
        e = d[:p] + r.choice(HOSTILE) + d[p:]
    elif k < .8:
        e = d[:p] + d[p + r.choice([1, 1, 2, 5, 50, 1000]):]
    elif k < .88:
        s = r.randrange(len(d))
        e = d[:p] + d[s:s + r.choice([1, 5, 50, 1000])] + d[p:]
    elif k < .93:
        p = len(d)
        e = d + r.choice(HOSTILE + [d, b"\n" * 5000, b"\x00" * 9])
    else:
        e = r.choice(OTHER)
    m = min(len(d), len(e))
    f = next((j for j in range(m) if d[j] != e[j]), m)
    if r.random() < .03:
        # entities: srcML has none
        z = r.choice([b"<!DOCTYPE unit [<!ENTITY z 'zz'>]>", b"<!DOCTYPE unit [<!ENTITY a 'aaaa'><!ENTITY b '&a;&a;&a;'>]>", b"<!DOCTYPE unit [<!ENTITY z SYSTEM '/etc/hostname'>]>", b"<!DOCTYPE unit [<!ENTITY % z 'zz'>%z;]>"])
        k = d.find(b"?>") + 2 if d.startswith(b"<?xml") else 0
        e = d[:k] + z + re.sub(rb">([a-z])", rb">&z;&b;\1", d[k:]) if r.random() < .7 else d[:k] + z + d[k:]
        f = k
    return e, f, False


ACC = ["srcml", "srcml_outer", "srcml_inner", "language", "filename", "hash", "loc", "version", "timestamp", "src_encoding", "revision"]


def reader(r, i, data, full, n, leak):
    """a case that reads the bytes; full: read every unit and print its srcML, else any history"""
    c = Case(i, leak=leak, limit=60, at=[], hist=[])
    kind = r.choice(KINDS)
    plan = ""
    if kind in ("io", "ionc", "pipe"):
        plan = "c=%d,%d" % (r.choice([1, 2, 7, 100, 1000]), r.choice([1, 300, 4096, 100000]))
        if len(data) > 20000:
            plan = "c=1000,100000"
        elif r.random() < .1 and len(data) < 3000:
            plan = "c=300,1000;nap=200"
        if kind == "io":
            plan += ";k=0"
    c.add("acreate a0")
    if r.random() < .4:
        c.add("inject %d %d %d" % (r.choice([1, 3, 10]), r.choice([0, 1, 2]), r.randrange(10000)))
    else:
        c.add("inject 0 0 0")
    if r.random() < .1:
        c.add("archive_set_srcdiff_revision a0 %d" % r.choice([0, 1]))
        c.meta["revision"] = True
    c.meta["open"] = len(c.lines)
    c.add("ropen a0 %s %s %s" % (kind, q(data), plan))
    H = c.meta["hist"]
    if full:
        for k in range(n + 2):
            H.append(("read", len(c.lines), k))
            c.add("read u%d a0" % k)
            H.append(("srcml", len(c.lines), k))
            c.add("unit_get_srcml u%d" % k)
    else:
        k = 0
        live = []
        for _ in range(r.choice([0, 0, 1, 2, 4, 8, 20])):
            z = r.random()
            if z < .5:
                H.append(("read", len(c.lines), k))
                c.add("read u%d a0" % k)
                live.append(k)
                k += 1
            elif z < .65:
                H.append(("skip", len(c.lines), k))
                c.add("archive_skip_unit a0")
                k += 1
            elif z < .7:
                c.add("archive_get_%s a0" % r.choice(["url", "version", "tabstop", "src_encoding", "xml_encoding", "options", "namespace_size", "processing_instruction_target", "revision"]))
            elif live:
                u = r.choice(live)
                if z < .95:
                    w = r.choice(ACC[:3] if r.random() < .7 else ACC)
                    if w == "srcml":
                        H.append(("srcml", len(c.lines), u))
                    c.add("unit_get_%s u%d" % (w, u))
                elif z < .97:
                    c.add("unparse u%d mem m5" % u)
                else:
                    live.remove(u)
                    c.add("ufree u%d" % u)
    e = r.choice(["close", "free", "both", "unitsfirst", "none", "closetwice"])
    if e in ("unitsfirst",):
        for _, _, k in H:
            c.add("ufree u%d" % k)
    if e in ("close", "both", "unitsfirst", "closetwice"):
        c.add("archive_close a0")
    if e == "closetwice":
        c.add("archive_close a0")
    if not full and H and r.random() < .2:
        # units outlive the archive's closing
        c.add("unit_get_srcml u%d" % H[0][2])
    if e in ("free", "both"):
        c.add("afree a0")
    if kind == "io" and e in ("close", "closetwice", "unitsfirst"):
        c.meta["stat"] = len(c.lines)
        c.add("rstat 0")
    c.meta.update(kind=kind, end=e)
    return c


def make(r, i, ctx):
    every = r.random() < .12
    d, sol = good(r, small=every)
    s = Scan(d, sol)
    if s.error is not None:
        raise RuntimeError("generator: bad document %r" % d[:300])
    n = len(s.units)
    if n > 30:
        return None
    ref = reader(r, "g" + i, d, True, n, False)
    ref.meta.pop("stat", None)
    ref.lines = [l for l in ref.lines if not l.startswith("archive_set_srcdiff")]
    if ref.meta.pop("revision", None):
        ref.meta["open"] -= 1
        ref.meta["hist"] = [(a, b - 1, k) for a, b, k in ref.meta["hist"]]
    ref.meta.update(doc=d, sol=sol, spans=s.units)
    cs = [ref]
    if every:
        step = max(1, len(d) // 260)
        off = r.randrange(step)
        for p in range(off, len(d) + 1, step):
            c = reader(r, "t%s_%d" % (i, p), d[:p], r.random() < .75, n, r.random() < .01)
            c.meta.update(data=d[:p], first=p, cut=True)
            cs.append(c)
    else:
        for k in range(r.choice([1, 2, 4])):
            e, f, cut = damage(r, d)
            if r.random() < .15 and not cut:
                e, f2, _ = damage(r, e or b"x")
                f = min(f, f2)
            if r.random() < .05:
                e, f, cut = d, len(d), False     # abandoned, not damaged
            c = reader(r, "d%s_%d" % (i, k), e, r.random() < .5, n, r.random() < .3)
            c.meta.update(data=e, first=f, cut=cut)
            cs.append(c)
    return cs


def unit_canon(t):
    nd = xmlu.parse(b"<?xml version='1.0' encoding='UTF-8'?>" + (unq(t) or b"")).root
    nd.attrs.pop(("", "revision"), None)
    return xmlu.canon(nd)


def judge(ctx, cs, xs):
    ref, rx = cs[0], xs[0]
    if ctx.crash(ref, rx):
        return
    M = ref.meta
    n = len(M["spans"])
    want = {}
    if rx.lines[M["open"]].split(" ")[0] != "0":
        return ctx.violation("good-refused", "an undamaged document was refused: %s %r" % (rx.lines[M["open"]], M["doc"][:300]), [ref])
    for what, at, k in M["hist"]:
        if what == "read" and (rx.lines[at] == "1") != (k < n):
            return ctx.violation("good-units", "an undamaged document has %d units, read number %d returned %s" % (n, k, rx.lines[at]), [ref])
        if what == "srcml" and k < n:
            want[k] = rx.lines[at]
    for c, x in zip(cs[1:], xs[1:]):
        if ctx.crash(c, x):
            return
        judge_one(ctx, ref, want, c, x)


def judge_one(ctx, ref, want, c, x):
    M, C, L = ref.meta, c.meta, x.lines
    n = len(M["spans"])

    def bad(kind, what):
        ctx.violation(kind, "%s (%s, channel %s, end %s, first difference at %d of %d)" % (what, "cut" if C["cut"] else "edited", C["kind"], C["end"], C["first"], len(M["doc"])), [ref, c])

    if any(l.startswith("!") for l in L):
        return bad("exception", next(l for l in L if l.startswith("!"))[:300])
    o = L[C["open"]].split(" ")[0]
    if c.leak:
        ctx.tally("leak_checked")
        if x.alloc and min(x.alloc) > 0:
            bad("leak", "bytes still allocated after each of four runs: %s" % x.alloc)
        if x.fds:
            bad("descriptors", "descriptors left open: %s" % x.fds)
        if x.nthreads and x.nthreads > 0:
            bad("threads", "threads left: %s" % x.nthreads)
    if "stat" in C:
        s = L[C["stat"]]
        if "closed=1" not in s or "after=0" not in s:
            bad("close-callback", "the read callbacks: %s, open status %s" % (s, o))
    ctx.tally("opened" if o == "0" else "refused")
    same = C["data"] == M["doc"]
    before = sum(1 for a, b, _ in M["spans"] if b <= C["first"]) if not same else n
    if o != "0":
        if before:
            bad("refused", "the document was refused (%s) with %d complete units before the damage" % (o, before))
        return
    ctx.seen((C["data"], tuple(h[0] for h in C["hist"])), bool(C["hist"]))
    if C.get("revision"):
        return
    scan = Scan(C["data"], M["sol"])
    plain = scan if scan.error is None else Scan(C["data"], M["sol"], False)       # an error of the namespaces does not end the document
    dead = plain.structural
    complete = 0
    if dead:
        # an edit may have turned one kind of document into the other
        complete = max(len(plain.units), len(Scan(C["data"], not M["sol"], False).units))
    ok = {}
    for what, at, k in C["hist"]:
        if what in ("read", "skip"):
            got = L[at]
            ok[k] = got == "1"
            if k < before and got != "1":
                return bad("lost-" + what, "%s of unit %d returned %s, %d units precede the damage" % (what, k, got, before))
            if C["cut"] and k >= before and got != "0" and what == "read":
                return bad("truncated-unit", "read of unit %d succeeded, only %d units are complete" % (k, before))
            if dead and what == "read" and k >= complete and got == "1":
                return bad("damaged-unit", "read of unit %d succeeded, only %d units are complete in the damaged document" % (k, complete))
            if k < before:
                ctx.tally("units_intact")
            else:
                ctx.tally("units_after_damage_returned" if got == "1" else "reads_at_damage")
        elif what == "srcml" and ok.get(k):
            if k < before:
                if L[at] != want[k]:
                    return bad("altered", "unit %d, complete before the damage: %r, undamaged %r" % (k, unq(L[at])[:300], unq(want[k])[:300]))
            elif k < len(scan.units) and scan.error is None and C["data"] not in OTHER:
                # still a well-formed document: it must be this document's unit
                e = scan.units[k][2]
                e.attrs.pop(("", "revision"), None)
                try:
                    g = unit_canon(L[at])
                except xmlu.XmlError as z:
                    g = "not well-formed: %s" % z
                if e.name != "unit" or e.uri != xmlu.SRC:
                    continue
                if g != xmlu.canon(e):
                    return bad("other-content", "unit %d of the (well-formed) edited document is %r, returned %r" % (k, xmlu.canon(e)[:400], g[:400]))
                ctx.tally("edited_wellformed_compared")


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(1400, 30000), make, judge, chunk=16, batch=24, tag="a")
