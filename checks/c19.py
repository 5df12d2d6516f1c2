"""C19: every input of the client is in the output exactly once, in order, whatever the threads do."""
import gzip, io, os, random, re, shutil, tarfile, zipfile
import vclient, xmlu

RULE = ("the real client (its option parser and thread pool replaced) converts random mixtures of inputs - source files, unsupported, missing and nested ones, directories, tar/zip/gz archives, "
        "file lists, srcML archives - with 1..8 threads under random delays at every lock, library call and task; the output must hold every expected unit, with its text, exactly once and in "
        "input order, and the event log of parses and writes must agree; ASan+UBSan and ThreadSanitizer; non-trivial: distinct orders of parse/write events with at least two units")

LANGS = [("c", "C"), ("h", "C"), ("cpp", "C++"), ("hpp", "C++"), ("cc", "C++"), ("java", "Java"), ("cs", "C#")]
SRC = "http://www.srcML.org/srcML/src"
IDENTITY = """<xsl:stylesheet xmlns:xsl="http://www.w3.org/1999/XSL/Transform" version="1.0"><xsl:output method="xml" omit-xml-declaration="yes"/>
<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template></xsl:stylesheet>"""
SCHEMA = """<grammar xmlns="http://relaxng.org/ns/structure/1.0" ns="http://www.srcML.org/srcML/src"><start><element name="unit"><ref name="any"/></element></start>
<define name="any"><zeroOrMore><choice><attribute><anyName/></attribute><text/><element><anyName><except><name>goto</name></except></anyName><ref name="any"/></element></choice></zeroOrMore></define></grammar>"""


class Gen:
    def __init__(self, r):
        self.r, self.n, self.files, self.used = r, 0, {}, set()
        self.problems, self.odd = [], False     # inputs that have to be named in a message; inputs that may be

    def content(self, n, invalid):
        r = self.r
        m = r.choice([0, 1, 1, 2, 3, 5, 20, r.choice([60, 200])])
        lead = r.choice(["", "", "// c%d <&> @\n" % n, "\n\n"])
        t = lead + "".join("int f%d_%d(int a) { return a < %d; }\n" % (n, j, n) for j in range(m))
        if invalid:
            t += "void g%d() { goto end; }\n" % n
        return t, m + (1 if invalid else 0), ["f%d_%d" % (n, j) for j in range(m)] + (["g%d" % n] if invalid else [])

    def source(self, base="", ext=None, plain=False):
        """-> (name, unit or None, bytes)"""
        r = self.r
        n = self.n = self.n + 1
        invalid = r.random() < .15
        t, m, names = self.content(n, invalid)
        if ext is None:
            ext, lang = r.choice(LANGS)
        elif ext:
            lang = dict(LANGS).get(ext)
        name = "s%d.%s" % (n, ext)
        if r.random() < .12:
            name = r.choice(["a b", "\u00fc", "x-y", "q'q", "a&b"]) + name
        if r.random() < .25:
            name = r.choice(["p/", "p/q/", "r.d/"]) + name
        name = base + name
        return name, dict(name=name, lang=lang, text=t, m=m, names=names, valid=not invalid), t.encode()

    def xml(self, archive=True):
        r = self.r
        us, doc = [], ""
        k = r.choice([1, 2, 3, 8, 30]) if archive else 1
        ns = ' xmlns:%s="http://other%d"' % (r.choice("pq"), r.randrange(3)) if r.random() < .3 else ""
        for i in range(k):
            n = self.n = self.n + 1
            m = r.choice([0, 1, 2, 5, 40])
            names = ["f%d_%d" % (n, j) for j in range(m)]
            invalid = r.random() < .15
            if invalid:
                names.append("g%d" % n)
            lang = r.choice(["C", "C++", "Java", "C#"])
            body = "".join("<function><name>%s</name>%s</function>\n" % (x, "<goto>;</goto>" if x[0] == "g" else ";") for x in names)
            text = "".join("%s;\n" % x for x in names)
            name = "x%d.%s" % (n, {v: k for k, v in LANGS}[lang])
            us.append(dict(name=name, lang=lang, text=text, m=len(names), names=names, valid=not invalid, xml=True))
            if archive:
                doc += '\n<unit revision="1.0.0" language="%s" filename="%s">%s</unit>\n' % (lang, name, body)
            else:
                doc = '<unit xmlns="%s"%s revision="1.0.0" language="%s" filename="%s">%s</unit>' % (SRC, ns, lang, name, body)
        if archive:
            doc = '<unit xmlns="%s"%s revision="1.0.0">%s</unit>' % (SRC, ns, doc)
        return us, doc.encode()

    def input(self, depth=0, kinds=None):
        """-> (argument, expected units, stop); adds its files"""
        r = self.r
        kind = r.choice(kinds or ["file"] * 6 + ["foo", "missing", "missingfoo", "dir", "tar", "tar", "zip", "gz", "xml", "xml", "solitary", "emptyxml", "list"])
        if kind == "list" and depth:
            kind = "file"
        if kind == "file":
            n, u, b = self.source()
            self.files[n] = b
            pre = r.choice(["", "", "", "./", "././"])
            return pre + n, [u], False
        if kind == "foo":
            n, u, b = self.source(ext=r.choice(["foo", "txt", "unknown"]))
            self.files[n] = b
            self.problems.append(n)
            return n, [], False
        if kind in ("missing", "missingfoo"):
            self.n += 1
            self.problems.append("missing%d.%s" % (self.n, "c" if kind == "missing" else "foo"))
            return self.problems[-1], [], False
        if kind == "dir":
            self.n += 1
            top = "dir%d" % self.n
            got = {}
            for _ in range(r.choice([1, 2, 5, 12])):
                n, u, b = self.source(base=top + "/", ext=None if r.random() < .85 else "foo")
                if r.random() < .1:
                    n2 = os.path.dirname(n) + "/." + os.path.basename(n)
                    self.files[n2] = b
                    continue
                self.files[n] = b
                self.odd |= not u["lang"]
                got[n.encode()] = u if u["lang"] else None
            return top + r.choice(["", "", "/"]), [got[n] for n in sorted(got) if got[n]], False
        if kind in ("tar", "zip"):
            self.n += 1
            us = []
            out = io.BytesIO()
            cnt = r.choice([1, 2, 4, 10, 40])
            if kind == "tar":
                ext, mode = r.choice([(".tar", "w"), (".tar.gz", "w:gz"), (".tgz", "w:gz"), (".tar.bz2", "w:bz2")])
                a = tarfile.open(fileobj=out, mode=mode, format=r.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT]))
            else:
                ext = ".zip"
                a = zipfile.ZipFile(out, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
            for _ in range(cnt):
                n, u, b = self.source(ext=None if r.random() < .85 else "foo")
                if kind == "tar":
                    if r.random() < .1:
                        d = tarfile.TarInfo("somedir%d" % self.n)
                        d.type, d.mode = tarfile.DIRTYPE, 0o755
                        a.addfile(d)
                    i = tarfile.TarInfo(n)
                    i.size = len(b)
                    a.addfile(i, io.BytesIO(b))
                else:
                    a.writestr(n, b)
                self.odd |= not u["lang"]
                if u["lang"]:
                    us.append(u)
            a.close()
            name = "arc%d%s" % (self.n, ext)
            self.files[name] = out.getvalue()
            return name, us, False
        if kind == "gz":
            n, u, b = self.source()
            self.files[n + ".gz"] = gzip.compress(b)
            return n + ".gz", [u], False
        if kind in ("xml", "solitary"):
            us, b = self.xml(kind == "xml")
            n = "a%d.xml" % self.n
            if r.random() < .2:
                n, b = n + ".gz", gzip.compress(b)
            self.files[n] = b
            return n, us, False
        if kind == "emptyxml":
            self.n += 1
            n = "e%d.xml" % self.n
            self.files[n] = b'<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0"></unit>'
            # an archive without units reads as a solitary unit without content
            return n, [dict(name=None, lang=None, text="", m=0, names=[], valid=True, xml=True)], False
        if kind == "list":
            lines, us = [], []
            for _ in range(r.choice([1, 2, 5, 15])):
                a, u, _s = self.input(1, ["file"] * 6 + ["foo", "missing", "tar", "dir", "gz", "xml"])
                lines.append(r.choice(["", "", "# no\n", "\n", "  "]) + a + r.choice(["", "", " "]))
                us += u
            self.n += 1
            n = "list%d.txt" % self.n
            self.files[n] = ("\n".join(lines) + r.choice(["\n", ""])).encode()
            return ("--files-from", n), us, False


def job(r, i, ctx, client):
    g = Gen(r)
    single = r.random() < .12
    todir = not single and r.random() < .1
    kinds = None
    if single:
        kinds = ["file", "tar", "dir", "xml", "gz", "solitary", "list"]
    elif todir:
        kinds = ["file"] * 5 + ["foo", "dir", "tar", "missing"]
    args, want = [], []
    for _ in range(1 if single else r.choice([2, 3, 5, 9, 16])):
        a, us, stop = g.input(0, kinds)
        args.append(a)
        want += us
    mode = "none" if todir else r.choice(["none"] * 4 + ["names", "count", "string", "xslt", "relaxng", "X"])
    argv = []
    for a in args:
        argv += list(a) if isinstance(a, tuple) else [a]
    if all(isinstance(a, str) and a.split(".gz")[0].endswith(".xml") for a in args) and mode == "none":
        mode = "X"
    if mode == "X":
        argv.append("-X")
    elif mode == "names":
        argv += ["--xpath", "//src:function/src:name"]
    elif mode == "count":
        argv += ["--xpath", "count(//src:function)"]
    elif mode == "string":
        argv += ["--xpath", "string((//src:function/src:name)[1])"]
    elif mode == "xslt":
        g.files["style.xsl"] = IDENTITY.encode()
        argv.append("style.xsl")
    elif mode == "relaxng":
        g.files["schema.rng"] = SCHEMA.encode()
        argv.append("schema.rng")
    out = "out.xml"
    if todir:
        out = "out/"
        argv += ["-o", out]
    elif r.random() < .25:
        out = None
    elif r.random() < .15 and mode not in ("count", "string"):
        out = "out.xml.gz"
        argv += ["-o", out]
    else:
        argv += ["-o", out]
    jobs = r.choice([1, 2, 2, 3, 4, 4, 8])
    argv += ["--jobs", str(jobs)]
    if r.random() < .15:
        argv.append("--position")
    verbose = r.random() < .15
    if verbose:
        argv.append("-v")
    if single and r.random() < .3:
        argv.append("--archive")
    nap = r.choice([None, (1, r.randrange(1 << 20)), (2, r.randrange(1 << 20)), (3, r.randrange(1 << 20))])
    text = vclient.script(g.files, argv, "delays: %s, flavor %s" % (nap, client.flavor))

    d = client.dir(client.flavor + i)
    w = d + "/w"
    for n, b in g.files.items():
        os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
        with open(os.path.join(w, n), "wb") as f:
            f.write(b)
    client.own(w)
    res = client.run(argv, w, events=d + "/events", nap=nap, timeout=60)
    try:
        judge(ctx, client, g, want, mode, out, todir, single, argv, res, d, text, jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, client, g, want, mode, out, todir, single, argv, res, d, text, jobs):
    what = "client %s (%s)" % (" ".join(argv)[:300], client.flavor)

    def bad(kind, msg):
        ctx.violation(kind, what + ": " + msg, [text], extra=res["err"][-2500:])

    if vclient.crashed(ctx, client, what, res, text):
        return
    # an input left out is named, and only then the status is not success
    silent = [p for p in g.problems if p not in res["err"]]
    if silent:
        return bad("silent", "nothing is said about the inputs %s that are left out" % silent[:5])
    # (--verbose lists what is not source code in its own table, without a warning)
    if res["rc"] == 0 and any("-v" not in argv or p.startswith("missing") and p.endswith(".c") for p in g.problems):
        return bad("status", "inputs %s are left out, and the status is success" % g.problems[:5])
    if not g.problems and not g.odd and (res["rc"] != 0 or ("-v" not in argv and "srcml:" in res["err"])):
        return bad("status", "no input is left out, and the status is %s" % res["rc"])
    ctx.tally("inputs_left_out", len(g.problems))
    w = d + "/w"
    ctx.tally("client_runs_" + client.flavor)
    ctx.tally("mode_" + ("todir" if todir else mode))
    if out is None:
        data = res["out"]
    elif todir:
        data = b""
    else:
        p = os.path.join(w, out)
        data = open(p, "rb").read() if os.path.exists(p) else b""
        if out.endswith(".gz"):
            try:
                data = gzip.decompress(data) if data else b""
            except (OSError, EOFError) as e:
                return bad("compressed", "compressed output: %s" % e)
    if mode in ("count", "string"):
        exp = "".join((str(u["m"]) if mode == "count" else u["names"][0] if u["names"] else "") + "\n" for u in want)
        # without results an empty archive is written
        if data.decode("utf-8", "replace") != exp and (exp or not empty(data)):
            return bad("scalars", "results %r, expected %r" % (data[:400], exp[:400]))
        ctx.tally("units_expected", len(want))
        events(ctx, bad, d, want, [], jobs)
        return
    exp = []        # (name, lang, text, item)
    for u in want:
        if u["name"] is None:
            continue
        if mode == "names":
            exp += [(u["name"], u["lang"], x, str(k + 1)) for k, x in enumerate(u["names"])]
        elif mode != "relaxng" or u["valid"]:
            exp.append((u["name"], u["lang"], u["text"], None))
    if todir:
        found = {}
        top = os.path.join(w, "out")
        for p, ds, fs in os.walk(top):
            for f in fs:
                found[os.path.relpath(os.path.join(p, f), top)] = open(os.path.join(p, f), "rb").read()
        names = [e[0] + ".xml" for e in exp]
        if sorted(found) != sorted(names):
            return bad("files", "written %s, expected %s" % (sorted(found), sorted(names)))
        for n, lang, t, item in exp:
            try:
                root = xmlu.parse(found[n + ".xml"]).root
            except xmlu.XmlError as e:
                return bad("not-xml", "%s.xml: %s: %r" % (n, e, found[n + ".xml"][:200]))
            if (root.get("filename"), root.get("language"), xmlu.text(root)) != (n, lang, t):
                return bad("content", "%s.xml holds %r %r" % (n, root.get("filename"), xmlu.text(root)[:200]))
    else:
        if not exp and empty(data):
            pass
        elif not data:
            if exp:
                return bad("nothing", "nothing was written, expected %d units" % len(exp))
        else:
            try:
                root = xmlu.parse(data).root
            except xmlu.XmlError as e:
                return bad("not-xml", "output is not XML: %s: %r" % (e, data[-200:]))
            us = xmlu.units(root)
            if not us and (len(exp) == 1 or root.get("filename")):
                us = [root]
            got = [(u.get("filename"), u.get("language"), xmlu.text(u), u.get("item")) for u in us]
            if mode == "xslt" or mode == "X" or mode == "none":
                got = [x[:3] + (None,) for x in got]
            # an archive without units reads as one unit without a name and content
            got = [x for x in got if x[0] is not None or x[2]]
            if got != exp:
                ga, ea = [x[0] for x in got], [x[0] for x in exp]
                kind = "content" if ga == ea else "order" if sorted(map(str, ga)) == sorted(map(str, ea)) else "lost" if len(ga) < len(ea) else "units"
                k = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
                return bad(kind, "unit %d of %d (expected %d): %r, expected %r" % (k, len(got), len(exp), got[k] if k < len(got) else None, exp[k] if k < len(exp) else None))
    ctx.tally("units_expected", len(exp))
    events(ctx, bad, d, want, exp, jobs)
    ctx.sample({"arguments": argv, "units": [e[0] for e in exp][:12]})


def empty(data):
    """nothing, a declaration without an element, or an archive without units"""
    data = re.sub(rb"^<\?xml [^>]*\?>", b"", data).strip()
    return not data or re.fullmatch(rb"<unit [^<>]*/>", data) is not None


def events(ctx, bad, d, want, exp, jobs):
    """every source unit was parsed once; every unit was written once, in order, after its parse"""
    log = []
    if os.path.exists(d + "/events"):
        for l in open(d + "/events", errors="replace"):
            f = l.rstrip("\n").split("\t")
            if len(f) == 6:
                log.append((int(f[0]), f[1], f[2], f[3], int(f[4]), f[5]))
    log.sort()
    ctx.tally("events", len(log))
    state, parsed, written, order, overlap, open_ = {}, [], [], [], 0, 0
    num = {}
    for s, tid, ev, obj, rc, name in log:
        if ev == "close":
            continue
        if ev == "parse":
            if state.get(obj) == "parse":
                return bad("events", "a unit is parsed twice at the same time: %s" % name)
            state[obj] = "parse"
            open_ += 1
            overlap = max(overlap, open_)
        elif ev == "parsed":
            state[obj] = "parsed"
            open_ -= 1
            if rc == 0:
                parsed.append(name)
        elif ev == "written":
            if state.get(obj) == "parse":
                return bad("events", "a unit is written while it is parsed: %s" % name)
            if rc != 0:
                return bad("events", "writing %s failed with %d" % (name, rc))
            written.append(name)
        order.append((ev[5:6] or ev[0], num.setdefault(name, len(num))))
    p = sorted(u["name"] for u in want if not u.get("xml"))
    if sorted(parsed) != p:
        return bad("parsed", "parsed %s, expected %s" % (sorted(parsed)[:30], p[:30]))
    if exp and [e[0] for e in exp] != [x for x in written if x]:
        return bad("written", "written %s, expected %s" % (written[:30], [e[0] for e in exp][:30]))
    if overlap > 1:
        ctx.tally("runs_with_parses_at_the_same_time")
    ctx.tally("threads_%d" % jobs)
    ctx.seen(repr(order), nontrivial=len(want) > 1)


def run(ctx):
    ctx.rule = RULE
    for flavor, k in (("full", ctx.n(700, 8000)), ("tsan", ctx.n(300, 3000))):
        client = vclient.Client(flavor)
        try:
            vclient.fan(ctx, client, k, lambda r, i, sub: job(r, i, sub, client), tag=flavor)
        finally:
            client.clean()
