"""C16: the streaming write API builds exactly the document requested."""
import gen, xmlu
from vrun import Case, q, unq

RULE = ("random sequences of write calls (several units of one archive at once, calls outside a started unit, unmatched ends, rejected names, null arguments, units started again, elements left open) are run next to "
        "a model that builds the requested tree and the status every call has to give; the srcML of the unit (whole, outer, inner), the written document (read with expat), the unit read back, its source in a random "
        "encoding and XPath results over the built unit and the unit read back are compared with the model; non-trivial: a unit with an element or text, counted as distinct tree")

OTHER = [("p", "http://p"), ("q", "http://example.org/q?a=1&b=2"), ("z", "urn:z"), ("cpp", xmlu.CPP), ("n1", "http://n/1")]
NAMES = ["expr_stmt", "expr", "name", "literal", "a", "b-c", "x.y", "_u", "\u00e9l\u00e9ment", "block", "Unit", "units", "N" * 70, "type", "macro"]
TEXTS = ["", "a", " ", "\n", "int a = 1;", "<&>", "\"", "\"\"", "a\"b\"c", "'", "]]>", "&amp;", "<!-- -->", "<a/>", "\t", "\r", "a\r\nb", "\u00e9", "\u20ac\u4e2d", "\U0001F600", "// c\n", "<?pi?>", "\"<\"", "%s%n", "\\", "x" * 200, "\u2028", "\x85", "  \n  "]
ANAMES = ["a", "type", "format", "filename", "x-y", "\u00e9", "revision", "_", "item"]


class El:
    def __init__(self, uri, name):
        self.uri, self.name, self.attrs, self.kids = uri, name, {}, []


def canon(e, decls=None):
    n = xmlu.Node(e.uri, e.name, None, dict(e.attrs), [])
    for k in e.kids:
        if isinstance(k, str):
            if not k:
                continue
            if n.kids and isinstance(n.kids[-1], str):
                n.kids[-1] += k
            else:
                n.kids.append(k)
        else:
            n.kids.append(canon(k))
    return n


class W:
    """the model of one unit being written"""

    def __init__(self, r, c, slot, uri, pre):
        self.r, self.c, self.slot, self.src, self.pre = r, c, slot, uri, pre
        self.started = self.ended = self.broken = False
        self.root, self.stack, self.open, self.used = None, [], False, None

    def call(self, op, *args, ok=None, err=None):
        """err: True any error; number: exactly that"""
        self.c.meta["st"].append((len(self.c.lines), op + " " + " ".join(args), 0 if not err else err))
        self.c.add("%s u%d" % (op, self.slot), *args)

    def text(self):
        r = self.r
        t = "".join(r.choice(TEXTS) for _ in range(r.choice([1, 1, 2, 4])))
        if r.random() < .03:
            t += ("\"" + "y" * r.choice([1000, 4095, 4096, 20000])) * 2
        return t

    def env(self):
        d = {}
        for e, dec in self.stack:
            d.update(dec)
        return d

    def step(self):
        r = self.r
        if not self.started:
            k = r.random()
            if k < .3:
                op, a = r.choice([("write_start_element", ("~", "'a", "~")), ("write_end_element", ()), ("write_namespace", ("'p", "'http://p")), ("write_attribute", ("~", "'a", "~", "'v")),
                                  ("write_string", ("'text",)), ("write_end_unit", ())])
                self.call(op, *a, err=True)
                return
            self.call("write_start_unit")
            self.started, self.ended = True, False
            self.root = El(xmlu.SRC, "unit")
            self.stack, self.open = [], False
            return
        top = self.stack[-1][0] if self.stack else self.root
        k = r.random()
        if k < .34:
            self.start_element(top)
        elif k < .5:
            t = self.text()
            self.call("write_string", q(t))
            top.kids.append(t)
            self.open = False
        elif k < .66:
            if self.stack:
                self.call("write_end_element")
                self.stack.pop()
                self.open = False
            else:
                self.call("write_end_element", err=True)
        elif k < .82:
            self.attribute(top)
        elif k < .86:
            self.namespace()
        elif k < .92:
            # rejected
            op, a, e = r.choice([("write_start_element", ("~", "'unit", "~"), True), ("write_start_element", ("'p", "'unit", "'http://p"), True), ("write_start_element", ("~", "~", "~"), 2),
                                 ("write_start_element", ("~", "'", "~"), True), ("write_start_element", ("'p", "'", "'http://p"), True), ("write_string", ("~",), 2), ("write_attribute", ("~", "~", "~", "'v"), 2), ("write_attribute", ("~", "'a", "~", "~"), 2),
                                 ("write_namespace", ("'p", "~"), 2)])
            self.call(op, *a, err=e)
        elif k < .94:
            # begins again: what was written is discarded
            self.call("write_start_unit")
            self.root = El(xmlu.SRC, "unit")
            self.stack, self.open = [], False
        elif k < .95:
            self.c.meta["nul"].append((len(self.c.lines), self.used))
            self.c.add("unit_get_srcml u%d" % self.slot)
        elif k < .96 and not self.used and not getattr(self, "prev", 0):
            self.c.meta["st"].append((len(self.c.lines), "archive_write_unit of a started unit", True))
            self.c.add("archive_write_unit a0 u%d" % self.slot)
        else:
            self.end()

    def end(self):
        self.call("write_end_unit")
        self.started, self.ended, self.used = False, True, canon(self.root)

    def start_element(self, top):
        r = self.r
        name = r.choice(NAMES)
        env = self.env()
        dflt = env.get("", None if self.pre else xmlu.SRC)     # the default namespace here
        k = r.random()
        dec = {}
        if k < .55:
            # an element of srcML
            if self.pre:
                pre, uri = self.pre, r.choice([None, xmlu.SRC])
                if env.get(self.pre, xmlu.SRC) != xmlu.SRC:
                    return
            elif dflt == xmlu.SRC:
                pre, uri = r.choice([None, None, ""]), r.choice([None, xmlu.SRC])
            else:
                pre, uri = None, None
            real = xmlu.SRC if (self.pre or dflt == xmlu.SRC) else dflt
        elif k < .8:
            pre, uri = r.choice(OTHER)
            real = uri
            dec = {pre: uri}
        elif k < .9 and [p for p in env if p[:9] != "explicit:"]:
            pre = r.choice([p for p in env if p[:9] != "explicit:"])
            real = env[pre]
            uri = None
            if not pre:
                pre = None
        elif k < .95:
            pre, uri = r.choice([None, ""]), r.choice(["http://default", "urn:d"])
            real = uri
            dec = {"": uri}
        else:
            # a prefix that the archive declares on every unit
            pre, uri, real = "reg", None, "http://registered"
        self.call("write_start_element", "~" if pre is None else q(pre), q(name), "~" if uri is None else q(uri))
        e = El(real or "", name)
        top.kids.append(e)
        self.stack.append((e, dec))
        self.open = True

    def attribute(self, top):
        r = self.r
        name, v = r.choice(ANAMES), self.text()
        if not self.stack or not self.open:
            self.call("write_attribute", "~", q(name), "~", q(v), err=True)
            return
        e, dec = self.stack[-1]
        env = self.env()
        k = r.random()
        if k < .6:
            if ("", name) in e.attrs:
                return
            self.call("write_attribute", r.choice(["~", "'"]), q(name), "~", q(v))
            e.attrs[("", name)] = v
        elif k < .85:
            pre, uri = r.choice(OTHER)
            if (uri, name) in e.attrs or dec.get(pre, uri) != uri or "explicit:" + pre in dec:
                return
            self.call("write_attribute", q(pre), q(name), q(uri), q(v))
            dec[pre] = uri
            e.attrs[(uri, name)] = v
        else:
            pres = [p for p in env if p and not p.startswith("explicit:")]
            pre = r.choice(pres) if pres else "reg"
            uri = env.get(pre, "http://registered")
            if (uri, name) in e.attrs:
                return
            self.call("write_attribute", q(pre), q(name), "~", q(v))
            e.attrs[(uri, name)] = v

    def namespace(self):
        r = self.r
        if not self.stack or not self.open:
            self.call("write_namespace", "'p", "'http://p", err=True)
            return
        e, dec = self.stack[-1]
        # prefixes that nothing else declares, so that none is declared twice
        p, u = r.choice([("w1", "http://w/1"), ("w2", "http://w/2?<&>\""), ("w3", "w")])
        if p in dec:
            return
        self.call("write_namespace", q(p), q(u))
        dec[p] = u
        dec["explicit:" + p] = u


UATTRS = [("language", "C++"), ("filename", "a.cpp"), ("filename", "<\"a&b'>.c"), ("version", "1.2"), ("timestamp", "now"), ("filename", "\u00e9\n.h")]


def make(r, i, ctx):
    c = Case("c" + i, leak=r.random() < .04, st=[], nul=[], units=[], gets=[])
    c.add("acreate a0")
    pre = None
    if r.random() < .15:
        pre = r.choice(["src", "s"])
        c.add("archive_register_namespace a0", q(pre), q(xmlu.SRC))
    c.add("archive_register_namespace a0 'reg 'http://registered")
    solitary = r.random() < .2
    if solitary:
        c.add("archive_enable_solitary_unit a0")
    if r.random() < .3:
        c.add("archive_set_options a0 %d" % r.choice([0, 2, 4, 8, 44, 64]))
    xenc = r.choice(["UTF-8", "UTF-8", "UTF-8", "UTF-16"])
    c.add("archive_set_xml_encoding a0", q(xenc))
    opened = r.random() < .7
    if opened:
        c.add("wopen a0 mem m0")
    n = 1 if solitary else r.choice([1, 1, 2, 3])
    ws = []
    for k in range(n):
        c.add("ucreate u%d a0" % k)
        at = {}
        for name, v in r.sample(UATTRS, r.choice([0, 1, 2, 3])):
            c.add("unit_set_%s u%d" % (name, k), q(v))
            at[name] = v
        w = W(r, c, k, xmlu.SRC, pre)
        w.at = at
        w.prev = r.random() < .1
        if w.prev:
            # held something else before
            c.add("unit_set_language u%d 'C" % k).add("parse u%d mem 'int%%20old;" % k)
            at["language"] = "C"
        ws.append(w)
    for _ in range(r.choice([3, 8, 20, 60, 150])):
        r.choice(ws).step()
    for w in ws:
        if not w.started:
            if not w.ended:
                w.step()
                while not w.started:
                    w.step()
        if w.started:
            w.end()
        if r.random() < .3:
            w.call("write_end_unit", err=True)
            if r.random() < .5:
                w.call("write_string", "'late", err=True)
        for f in ("unit_get_srcml", "unit_get_srcml_outer", "unit_get_srcml_inner", "unit_get_loc"):
            c.meta["gets"].append((len(c.lines), f, w.slot, "written"))
            c.add("%s u%d" % (f, w.slot))
    if not opened:
        c.add("wopen a0 mem m0")
    xp(r, c, "a0", [w.slot for w in ws])
    for w in ws:
        c.meta["st"].append((len(c.lines), "archive_write_unit", 0))
        c.add("archive_write_unit a0 u%d" % w.slot)
    c.add("archive_close a0")
    c.meta["doc"] = len(c.lines)
    c.add("mem m0")
    enc, codec = r.choice([("UTF-8", "utf-8"), ("UTF-8", "utf-8"), ("UTF-16LE", "utf-16-le"), ("ISO-8859-1", "latin-1")])
    c.meta["codec"] = codec
    c.add("acreate a1").add("archive_set_src_encoding a1", q(enc)).add("ropen a1 %s m0" % r.choice(["mem", "file", "io", "FILE", "fd"]))
    skip = r.random() < .1
    for w in ws:
        c.add("read u%d a1" % (w.slot + 10))
        acts = [("unit_get_srcml", ""), ("unit_get_loc", ""), ("unit_get_srcml_outer", ""), ("unit_get_srcml_inner", ""), ("unparse", " %s m%d" % (r.choice(["mem", "mem", "file", "io"]), 10 + w.slot))]
        r.shuffle(acts)
        for f, rest in acts:
            if f == "unparse":
                dest = rest.split()[0]
                tgt = ("k%d" % w.slot) if dest == "io" else rest.split()[1]
                c.meta["gets"].append((len(c.lines), "unparse", w.slot, dest))
                if dest == "mem":
                    c.add("unparse u%d mem m%d" % (w.slot + 10, 10 + w.slot))
                    c.meta["gets"].append((len(c.lines), "source", w.slot, "mem"))
                    c.add("mem m%d" % (10 + w.slot))
                elif dest == "file":
                    c.add("unparse u%d file 'o%d" % (w.slot + 10, w.slot))
                    c.add("slurp b%d 'o%d" % (40 + w.slot, w.slot))
                    c.meta["gets"].append((len(c.lines) - 1, "source", w.slot, "file"))
                else:
                    c.add("unparse u%d io %d" % (w.slot + 10, 3 + w.slot))
                    c.meta["gets"].append((len(c.lines), "source", w.slot, "io"))
                    c.add("wdata %d" % (3 + w.slot))
            else:
                c.meta["gets"].append((len(c.lines), f, w.slot, "read"))
                c.add("%s u%d" % (f, w.slot + 10))
    xp(r, c, "a1", [w.slot + 10 for w in ws])
    c.add("read u40 a1")
    for w in ws:
        w.r = w.c = None
    c.meta["ws"] = ws
    c.meta["pre"] = pre
    c.meta["xenc"] = xenc
    c.meta["solitary"] = solitary
    return c


def xp(r, c, a, units):
    """one XPath expression over every unit"""
    if r.random() < .3:
        return
    e = r.choice(["count(//*)", "count(//@*)", "string-length(string(/*))", "string(/*)", "count(//*[not(node())])", "sum(//*/@zz) + count(/*/*)"])
    c.add("append_transform_xpath %s" % a, q(e))
    for k, u in enumerate(units):
        c.add("apply %s u%d r%d" % (a, u, k))
        c.meta["gets"].append((len(c.lines), "xpath", u % 10, e))
        c.add("transform_get_%s r%d" % ("string" if e == "string(/*)" else "number", k))
        c.add("tfree r%d" % k)
    c.add("clear_transforms %s" % a)


def count(n, e):
    els = list(n.iter())
    if e == "count(//*)":
        return len(els)
    if e == "count(//@*)":
        return sum(len(x.attrs) for x in els)
    if e == "count(//*[not(node())])":
        return sum(1 for x in els if not [k for k in x.kids if k != ""])
    if e.startswith("sum"):
        return sum(1 for k in n.kids if not isinstance(k, str))
    t = xmlu.text(n)
    return t if e == "string(/*)" else len(t)


def unitnode(data, full):
    d = xmlu.parse(data)
    return d.root


def expected(w, n):
    n.attrs = {("", k): v for k, v in w.at.items()}
    return n


def strip(n):
    """without what the library records about the unit"""
    # a unit without a language is written with an empty one
    n.attrs = {k: v for k, v in n.attrs.items() if (k, v) != (("", "language"), "") and k not in (("", "revision"), ("", "hash"), ("", "item"), ("", "url"), ("", "options"), ("", "src-encoding"), (xmlu.POS, "tabs"))}
    return n


def norm(n):
    for x in n.iter():
        out = []
        for k in x.kids:
            if isinstance(k, str) and out and isinstance(out[-1], str):
                out[-1] += k
            else:
                out.append(k)
        x.kids = out
    return n


def judge(ctx, c, x):
    if x.crash:
        return ctx.crash(c, x)
    if not x.done:
        return
    M = c.meta
    L = x.lines

    def bad(kind, what):
        ctx.violation(kind, what, [c])
    if c.leak:
        ctx.tally("leak_runs")
        if x.alloc and min(x.alloc) > 0:
            return bad("leak", "allocated bytes grow with every repetition: %r" % (x.alloc,))
    for k, what, want in M["st"]:
        got = L[k].split()[0]
        ctx.tally("rejected_calls" if want else "accepted_calls")
        if want is True and got == "0":
            return bad("accepted", "%s is accepted" % what)
        if want is not True and got != str(want):
            return bad("status", "%s gives %s instead of %s" % (what, got, want))
    for k, prev in M["nul"]:
        # nothing, or what the unit held before it was begun again
        if prev and L[k] != "~":
            ctx.tally("earlier_content")
        elif L[k] != "~" and not any(w.prev for w in M["ws"]):
            return bad("unfinished", "srcML of a unit that is still being written: %s" % L[k][:200])
    ws = {w.slot: w for w in M["ws"]}
    exp = {s: xmlu.canon(expected(w, w.used)) for s, w in ws.items()}
    txt = {s: xmlu.text(w.used) for s, w in ws.items()}
    full = {}
    for k, f, s, how in M["gets"]:
        w = ws[s]
        v = L[k]
        if f in ("unit_get_srcml", "unit_get_srcml_outer"):
            b = unq(v)
            if b is None:
                return bad("missing", "%s of the %s unit is null" % (f, how))
            if f.endswith("outer"):
                full[(s, how)] = b
                # the outer form leaves the default declaration to the archive
                p = M["pre"]
                wrapper = "<o xmlns%s=\"%s\" xmlns:reg=\"http://registered\" xmlns:cpp=\"%s\" xmlns:pos=\"%s\">" % (":" + p if p else "", xmlu.SRC, xmlu.CPP, xmlu.POS)
                try:
                    n = xmlu.parse(wrapper.encode() + b + b"</o>").root.kids[0]
                except xmlu.XmlError as e:
                    return bad("outer", "outer srcML of the %s unit is not well-formed (%s): %s" % (how, e, b[:300]))
            else:
                try:
                    n = xmlu.parse(b).root
                except xmlu.XmlError as e:
                    return bad("srcml", "srcML of the %s unit is not well-formed (%s): %s" % (how, e, b[:300]))
            if xmlu.canon(strip(norm(n))) != exp[s]:
                return bad("tree", "%s of the %s unit: %s; requested: %s" % (f, how, xmlu.canon(n)[:600], exp[s][:600]))
            ctx.tally("trees_compared")
        elif f == "unit_get_srcml_inner":
            b = unq(v)
            if b is None:
                return bad("missing", "inner srcML of the %s unit is null" % how)
            p = M["pre"]
            wrapper = "<o xmlns%s=\"%s\" xmlns:reg=\"http://registered\" xmlns:cpp=\"%s\" xmlns:pos=\"%s\">" % (":" + p if p else "", xmlu.SRC, xmlu.CPP, xmlu.POS)
            try:
                n = xmlu.parse(wrapper.encode() + b + b"</o>").root
            except xmlu.XmlError as e:
                return bad("inner", "inner srcML of the %s unit is not well-formed (%s): %s" % (how, e, b[:300]))
            n.uri, n.name, n.attrs = xmlu.SRC, "unit", dict(w.used.attrs)
            if xmlu.canon(norm(n)) != exp[s]:
                return bad("inner", "inner srcML of the %s unit: %s; requested: %s" % (how, xmlu.canon(n)[:600], exp[s][:600]))
        elif f == "unit_get_loc":
            want = txt[s].count("\n") + (txt[s] != "" and txt[s][-1] != "\n")
            if v != str(want):
                return bad("loc", "LOC of the %s unit is %s, of its text %d: %r" % (how, v, want, txt[s][:300]))
            ctx.tally("line_counts")
        elif f == "unparse":
            if v.split()[0] != "0":
                return bad("unparse", "unparse of the unit read back gives %s" % v)
        elif f == "source":
            b = unq(v.split()[0]) if v != "~" else None
            if b is None:
                b = b""
            want = "".join(ch if can(ch, M["codec"]) else "&#%d;" % ord(ch) for ch in txt[s]).encode(M["codec"])
            if b != want:
                return bad("source", "source of the unit read back (%s): %r; text of what was written: %r" % (how, b[:400], want[:400]))
            ctx.tally("sources_compared")
        elif f == "xpath":
            want = count(w.used, how)
            if how == "count(//@*)":
                # what is recorded about the unit is not part of the model
                want = float(v) if 0 <= float(v) - sum(len(n.attrs) for n in w.used.iter()) <= 6 else -1
            if not xpath_ok(v, want, ctx):
                return bad("xpath", "%s over the unit gives %s instead of %r" % (how, v[:300], want))
            ctx.tally("xpath_results")
    b = unq(L[M["doc"]])
    try:
        d = xmlu.parse(b or b"")
    except xmlu.XmlError as e:
        return bad("document", "the written document is not well-formed (%s): %r" % (e, (b or b"")[:300]))
    us = [d.root] if M["solitary"] else xmlu.units(d.root)
    if len(us) != len(ws):
        return bad("document", "%d units written, %d in the document" % (len(ws), len(us)))
    for s, u in zip(sorted(ws), us):
        u = strip(norm(u))
        if xmlu.canon(u) != exp[s]:
            return bad("document", "unit in the document: %s; requested: %s" % (xmlu.canon(u)[:600], exp[s][:600]))
    if L[-1] != "0" and L[-1] != "~":
        return bad("extra", "a unit that was never written is read back: %s" % L[-1])
    for s in ws:
        ctx.seen(exp[s], bool(ws[s].used.kids))
    ctx.sample({"units": len(ws), "calls": len(M["st"]), "tree": exp[min(exp)][:200]})


def can(ch, codec):
    try:
        ch.encode(codec)
        return True
    except UnicodeError:
        return False


def xpath_ok(v, want, ctx):
    if isinstance(want, str):
        return (unq(v) or b"") == want.encode()
    return float(v) == want


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(40000, 600000), make, judge)
