"""C22: the options of the client have the effect of the library's settings."""
import gzip, io, os, random, re, shutil, tarfile, time
import gen, vclient, xmlu
from vrun import Case, q, unq

RULE = ("the real client (option parser replaced) converts random sources - files, registered extensions, text with escapes, standard input, compressed files, tar archives, in several encodings - with random "
        "combinations of its options (language, metadata, markup, encoding, prefixes, archive, transformations with elements, attributes and parameters, outer and inner srcML); what it writes must be, byte for byte, what "
        "the library gives for the same sources when the corresponding settings are made through its API, with timestamps taken from the file system; ASan+UBSan; non-trivial: distinct (options, inputs) with a document")

SRC = "http://www.srcML.org/srcML/src"
EXT = {"c": "C", "h": "C", "cpp": "C++", "hpp": "C++", "cc": "C++", "java": "Java", "cs": "C#"}
OPT = {"--position": 4, "--cpp": 8, "--cpp-nomarkup-else": 16, "--cpp-markup-if0": 32, "--no-xml-declaration": 2}
STYLE = """<xsl:stylesheet xmlns:xsl="http://www.w3.org/1999/XSL/Transform" xmlns:src="http://www.srcML.org/srcML/src" version="1.0"><xsl:output method="xml" omit-xml-declaration="yes"/><xsl:param name="p" select="'none'"/>
<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template>
<xsl:template match="src:literal"><xsl:copy><xsl:attribute name="type"><xsl:value-of select="$p"/></xsl:attribute><xsl:value-of select="."/></xsl:copy></xsl:template></xsl:stylesheet>"""
SCHEMA = """<grammar xmlns="http://relaxng.org/ns/structure/1.0" ns="http://www.srcML.org/srcML/src"><start><element name="unit"><ref name="any"/></element></start>
<define name="any"><zeroOrMore><choice><attribute><anyName/></attribute><text/><element><anyName><except><name>if_stmt</name></except></anyName><ref name="any"/></element></choice></zeroOrMore></define></grammar>"""
META = ["1.2", "a b", "x<&>\"'y", "\u00fcber", "%s", "", "1=2"]


def program(r, lang):
    t = gen.program(r, lang, r.choice([1, 1, 2, 4]))
    if lang != "Java" and r.random() < .4:
        t = r.choice(["#if 0\nint z;\n#endif\n", "#if A\nint b;\n#else\nint c = 1;\n#endif\n", "#define X(a) a\n"]) + t
    if r.random() < .05:
        t += "\\"
    if r.random() < .3:
        t = "\tint u\u00e9; // \u00fc\n" + t
    return t.replace("\0", "")


def byte(r, b, nxt):
    """the escape of one byte, in one of the forms; what follows is not part of it"""
    octal = nxt[:1] in tuple("01234567")
    f = r.random()
    if f < .35:
        return ("\\x%02x" if r.random() < .7 else "\\x%02X") % b
    if f < .45 and b < 16 and nxt[:1] not in tuple("0123456789abcdefABCDEF"):
        return "\\x%x" % b
    if f < .7 or octal and b < 64:
        return "\\0%03o" % b
    if f < .85 and b >= 8 and not octal:
        return "\\%o" % b
    return "\\%03o" % b


def escaped(r, t, last=True, enc=None):
    """the text as the argument of --text"""
    o = ""
    m = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\f": "\\f", "\a": "\\a", "\b": "\\b", "\v": "\\v", "\x1b": "\\e"}
    for ch in reversed(t):
        nxt = o[:1]
        if ch == "\\":
            # not an escape: stays as it is, as does one at the end
            o = (ch if nxt not in "abefnrtvx01234567\\" or (not nxt and last) else "\\x5c") + o
        elif ch in m and r.random() < .8:
            o = m[ch] + o
        elif (ch < "\x80" or enc) and r.random() < .04:
            for b in reversed(ch.encode(enc or "ascii")):
                o = byte(r, b, o[:1]) + o
        else:
            o = ch + o
    return o


def prefixes(r, opts, st):
    spaces = {}
    if r.random() < .4:
        for p, u in r.sample([("s", SRC), ("z", "http://z"), ("z", "http://z"), ("c", "http://www.srcML.org/srcML/cpp"), ("po", "http://www.srcML.org/srcML/position"), ("k", "urn:k")], r.choice([1, 2, 3])):
            spaces[p] = u
            opts.append(["--xmlns:%s=%s" % (p, u)] if r.random() < .7 else ["--xmlns", "%s=%s" % (p, u)])
        for p in sorted(spaces):
            st.append(("archive_register_namespace", "a0", q(p), q(spaces[p])))
    return spaces


def transforms(r, spaces, opts, files):
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.random()
        if k < .6:
            ex = r.choice(["//src:name", "//src:expr", "//src:literal", "//src:function", "/src:unit", "//src:decl_stmt", "//cpp:*", "//src:nothing", "//src:comment"])
            o = ["--xpath", ex]
            z = r.random()
            if z < .35 and "z" in spaces:
                if r.random() < .6:
                    o += ["--element", "z:mark"]
                    steps.append(("append_transform_xpath_element", "a0", q(ex), q("z"), q("http://z"), q("mark")))
                if r.random() < .6 or len(o) == 2:
                    v = r.choice(["v", "a b", "x=1:2", "<&>"])
                    o += ["--attribute", "z:at=" + v]
                    steps.append(("append_transform_xpath_attribute", "a0", q(ex), q("z"), q("http://z"), q("at"), q(v)))
            else:
                steps.append(("append_transform_xpath", "a0", q(ex)))
                steps.append(("archive_disable_solitary_unit", "a0"))
            opts.append(o)
        elif k < .85:
            files["style.xsl"] = STYLE.encode()
            o = ["--xslt", "style.xsl"]
            steps.append(("xslt", "a0", "mem", q(STYLE)))
            if r.random() < .6:
                v = r.choice(["v", "a b", "x=1", "<&>", "\u00fc", "a\"b", "it's", "\"", "a\"b'c", ""])
                o += ["--xslt-param", r.choice(["p=%s", "p=\"%s\""]) % v]
                steps.append(("append_transform_stringparam", "a0", q("p"), q(v)))
            opts.append(o)
        else:
            files["schema.rng"] = SCHEMA.encode()
            opts.append(["--relaxng", "schema.rng"])
            steps.append(("relaxng", "a0", "mem", q(SCHEMA)))
    return steps


def make(r, i):
    """-> dict: files, argv, stdin, the driver's case, and what to compare"""
    files, argv, units = {}, [], []
    kinds = r.choice([["file"], ["file"], ["file"], ["text"], ["stdin"], ["gz"], ["tar"], ["ext"], ["nul"], None])
    kinds = kinds or [r.choice(["file", "file", "file", "gz", "ext", "text"]) for _ in range(r.choice([2, 3, 6]))]
    lang = r.choice(["C", "C++", "Java", "C#"]) if "text" in kinds or "stdin" in kinds or "nul" in kinds or r.random() < .2 else None
    enc = r.choice([None, None, "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE"])
    exts = [("foo", r.choice(["C", "C++", "Java", "C#"])), ("bar", "C++")]
    if r.random() < .2:
        exts.append(("h", "C++"))
    use = "ext" in kinds or r.random() < .15
    known = dict(EXT)
    if use:
        known.update(exts)
    archive = r.random() < .25 or "nul" in kinds
    position, stamp = r.random() < .25, r.random() < .25
    c = Case("o%d" % i)
    stdin, tarname = b"", None
    mtimes = {}

    def when(n):
        mtimes[n] = r.choice([0, 1, 86400 * 365, 10 ** 9, 1234567890]) if r.random() < .9 else 1600000000
        return time.ctime(mtimes[n])

    def source(k, ext):
        l = lang or (known[ext] if name is None else known.get(name.rpartition(".")[2], known[ext]))
        t = program(r, l)
        e = enc or "latin-1"
        b = t.encode(e, "replace")
        if "utf-16" in e.lower() and r.random() < .3:
            b = {"UTF-16LE": b"\xff\xfe", "UTF-16BE": b"\xfe\xff"}[enc] + b
        return l, b

    solitary = len(kinds) == 1 and not archive and kinds != ["tar"]
    # a name given decides the language if its extension is known
    name = r.choice(["n.c", "dir/n x.java"] + META[:4]) if solitary and r.random() < .3 else None
    ins = []
    for k, kind in enumerate(kinds):
        if kind in ("file", "ext"):
            ext = r.choice(["foo", "bar"]) if kind == "ext" else r.choice([x for x in known if x not in ("foo", "bar")])
            n = r.choice(["", "", "d/", "d e/"]) + r.choice(["s", "s", "a b", "\u00fc", "q?", "100%", "x&y=z#", "[x]*"]) + "%d.%s" % (k, ext)
            l, b = source(k, ext)
            files[n] = b
            ins.append(r.choice(["", "", "./"]) + n)
            units.append([n, l, b, when(n) if stamp else None])
        elif kind == "gz":
            ext = r.choice([x for x in known if x not in ("foo", "bar")])
            n = r.choice(["", "d/"]) + "z%d.%s" % (k, ext)
            l, b = source(k, ext)
            files[n + ".gz"] = gzip.compress(b, mtime=1234567)
            ins.append(n + ".gz")
            units.append([n, l, b, time.ctime(1234567) if stamp else None])
        elif kind == "text":
            if enc and "16" in enc:
                enc = "UTF-8"
            t = program(r, lang)
            b = t.encode(enc or "latin-1", "replace")
            t = b.decode(enc or "latin-1")
            if r.random() < .05:
                t = b = ""
                b = b""
            if t[:1] == "-":
                t, b = "int a;", b"int a;"
            ins.append(("-t", os.fsdecode(escaped(r, t, True, enc or "latin-1").encode(enc or "latin-1"))))
            units.append([None, lang, b, None])
        elif kind == "nul":
            ts = [program(r, lang).encode("ascii", "replace").decode() for _ in range(r.choice([1, 2, 3]))]
            ts[0] = ts[0].lstrip("-") or "a"
            enc = None
            ins.append(("-t", r.choice(["\\0", "\\x0", "\\x00", "\\000"]).join(escaped(r, t, False) for t in ts)))
            # digits after an escape of one digit would belong to it
            if any(t[:1] in "0123456789abcdefABCDEF" for t in ts[1:]):
                ins[-1] = ("-t", "\\x00".join(escaped(r, t, False) for t in ts))
            units += [[None, lang, t.encode(), None] for t in ts]
        elif kind == "stdin":
            l, stdin = source(k, "c")
            if True:
                ins.append("-")
            units.append([None, lang, stdin, None])
        elif kind == "tar":
            out = io.BytesIO()
            a = tarfile.open(fileobj=out, mode="w", format=tarfile.GNU_FORMAT)
            for j in range(r.choice([1, 2, 5])):
                ext = r.choice([x for x in known if x not in ("foo", "bar")])
                n = "m%d.%s" % (j, ext)
                l, b = source(k, ext)
                f = tarfile.TarInfo(n)
                f.size, f.mtime = len(b), r.choice([5, 10 ** 9])
                a.addfile(f, io.BytesIO(b))
                units.append([n, l, b, time.ctime(f.mtime) if stamp else None])
            a.close()
            tarname = r.choice(["t.tar", "d/t.tar", ".t.tar", "d e/.t u.tar", "t..tar", "%s.tar"])
            files[tarname] = out.getvalue()
            ins.append(r.choice(["", "", "./", "././", "../w/"]) + tarname)
            if ins[-1][:3] == "../":
                tarname = "w/" + tarname
    for x in ins:
        argv += list(x) if isinstance(x, tuple) else [x]
    opts, st = [], []          # options of the client; settings of the library
    if lang:
        opts.append([r.choice(["-l", "--language"]), lang])
    if enc:
        opts.append(["--src-encoding", enc])
        st.append(("archive_set_src_encoding", "a0", q(enc)))
    if use:
        for e, l in exts:
            opts.append(["--register-ext", "%s=%s" % (e, l)])
    if archive:
        opts.append([r.choice(["-r", "--archive"])])
    hashed = r.random() < .25
    if hashed:
        opts.append(["--hash"])
    if not (hashed or not solitary):
        st.append(("archive_disable_hash", "a0"))
    if position:
        opts.append(["--position"])
        st.append(("archive_enable_option", "a0", 4))
    elif r.random() < .15:
        t = r.randint(1, 8)
        opts.append(["--tabs", str(t)])
        st += [("archive_enable_option", "a0", 4), ("archive_set_tabstop", "a0", t)]
    for o in ("--cpp", "--cpp-nomarkup-else", "--cpp-markup-if0", "--no-xml-declaration"):
        if r.random() < .15:
            opts.append([o])
            st.append(("archive_enable_option", "a0", OPT[o]))
    if r.random() < .2:
        x = r.choice(["UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "windows-1252"])
        opts.append(["--xml-encoding", x])
        st.append(("archive_set_xml_encoding", "a0", q(x)))
    url = version = None
    if name is not None:
        opts.append([r.choice(["-f", "--filename"]), name])
    if r.random() < .25:
        url = r.choice(META)
        opts.append(["--url", url])
        st.append(("archive_set_url", "a0", q(url)))
    elif tarname:
        st.append(("archive_set_url", "a0", q(tarname)))
    if r.random() < .25:
        version = r.choice(META)
        opts.append([r.choice(["-s", "--src-version"]), version])
        st.append(("archive_set_version", "a0", q(version)))
    if stamp:
        opts.append(["--timestamp"])
    spaces = prefixes(r, opts, st)
    form = r.choice(["doc"] * 8 + ["outer", "inner"])
    steps = transforms(r, spaces, opts, files) if form == "doc" and r.random() < .35 else []
    if form != "doc":
        opts.append(["--output-srcml-" + form])
    dest = r.choice([None, "out.xml", "out.xml.gz"])
    if dest:
        opts.append([r.choice(["-o", "--output"]), dest])
    if r.random() < .5:
        opts.append([r.choice(["-j", "--jobs"]), str(r.randint(1, 5))])
    if r.random() < .1:
        opts.append(["-q"])
    # the order of the transformations matters, that of other options does not
    tr = [o for o in opts if o[0] in ("--xpath", "--xslt", "--relaxng")]
    rest = [o for o in opts if o not in tr]
    r.shuffle(rest)
    cut = r.randint(0, len(rest))
    argv = [x for o in rest[:cut] for x in o] + argv + [x for o in tr + rest[cut:] for x in o]

    c.add("acreate", "a0")
    if solitary:
        c.add("archive_enable_solitary_unit", "a0")
    for s in st + steps:
        c.add(*s)
    c.add("wopen", "a0", "mem", "m0")
    at = []
    for n, l, b, ts in units:
        c.add("ucreate", "u0", "a0")
        c.add("unit_set_language", "u0", q(l))
        n = name if name is not None else n
        if n is not None:
            c.add("unit_set_filename", "u0", q(n))
        if version is not None:
            c.add("unit_set_version", "u0", q(version))
        if ts is not None:
            c.add("unit_set_timestamp", "u0", q(ts))
        c.add("parse", "u0", "mem", q(b))
        if form != "doc":
            c.add("unit_get_srcml_" + form, "u0")
            at.append(len(c.lines) - 1)
        elif steps:
            c.add("apply", "a0", "u0", "r0")
            c.add("wresult", "a0", "r0")
            c.add("tfree", "r0")
        else:
            c.add("archive_write_unit", "a0", "u0")
        c.add("ufree", "u0")
    c.add("archive_close", "a0")
    c.add("mem", "m0")
    c.meta["out"] = len(c.lines) - 1
    c.add("afree", "a0")
    c.meta["at"] = at
    return dict(files=files, argv=argv, stdin=stdin, case=c, dest=dest, form=form, mtimes=mtimes, units=units, solitary=solitary, kinds=kinds)


def document(r, i):
    """a case that gives a srcML document"""
    c = Case("d%d" % i)
    c.add("acreate", "a0").add("archive_set_src_encoding", "a0", q("UTF-8"))
    alone = r.random() < .3
    if alone:
        c.add("archive_enable_solitary_unit", "a0")
    if r.random() < .3:
        c.add("archive_disable_hash", "a0")
    for k in ("url", "version"):
        if r.random() < .4:
            c.add("archive_set_" + k, "a0", q(r.choice(META)))
    if r.random() < .25:
        c.add("archive_set_xml_encoding", "a0", q(r.choice(["ISO-8859-1", "UTF-16"])))
    if r.random() < .3:
        c.add("archive_enable_option", "a0", r.choice([4, 64]))
    if r.random() < .3:
        c.add("archive_register_namespace", "a0", q(r.choice(["s", "q", "src"])), q(r.choice([SRC, "urn:q"])))
    if r.random() < .1:
        c.add("archive_set_processing_instruction", "a0", q("pi"), q("d"))
    n = 1 if alone else r.choice([1, 1, 2, 3, 6])
    c.add("wopen", "a0", "mem", "m0")
    for k in range(n):
        lang = r.choice(["C", "C++", "Java", "C#"])
        c.add("ucreate", "u0", "a0").add("unit_set_language", "u0", q(lang))
        if r.random() < .8:
            c.add("unit_set_filename", "u0", q(r.choice(["f%d.c" % k, "d/x y.java"] + META[:4])))
        if r.random() < .3:
            c.add("unit_set_version", "u0", q(r.choice(META)))
        if r.random() < .2:
            c.add("unit_set_timestamp", "u0", q("Thu Jan  1 00:00:00 1970"))
        c.add("parse", "u0", "mem", q(program(r, lang).encode())).add("archive_write_unit", "a0", "u0").add("ufree", "u0")
    c.add("archive_close", "a0").add("mem", "m0")
    c.meta.update(alone=alone, n=n, out=len(c.lines) - 1)
    c.add("afree", "a0")
    return c


def makex(r, i, docs):
    """conversion of documents: docs is a list of (bytes, is it a solitary unit, units)"""
    files, opts, st = {}, [], []
    c = Case("o%d" % i)
    argv = []
    for k, (data, alone, n) in enumerate(docs):
        name = r.choice(["", "d/"]) + r.choice(["a%d.xml", "a b%d.xml", "\u00fc%d.srcml"]) % k
        if r.random() < .2:
            name += ".gz"
            data = gzip.compress(data, mtime=0)
        files[name] = data
        argv.append(name)
    one = len(docs) == 1
    archive = r.random() < .2
    hashed = r.random() < .25
    unit = r.randint(1, docs[0][2]) if one and r.random() < .3 else 0
    if archive:
        opts.append(["--archive"])
    if hashed:
        opts.append(["--hash"])
    lang = r.choice(["C", "C++", "Java", "C#"]) if r.random() < .1 else None
    if lang:
        opts.append(["-l", lang])
        st.append(("archive_set_language", "a0", q(lang)))
    solitary = one and not archive
    if solitary and not hashed:
        st.append(("archive_disable_hash", "a0"))
    if r.random() < .15:
        opts.append(["--no-xml-declaration"])
        st.append(("archive_enable_option", "a0", 2))
    if r.random() < .2:
        x = r.choice(["UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16"])
        opts.append(["--xml-encoding", x])
        st.append(("archive_set_xml_encoding", "a0", q(x)))
    for o, k in (("--url", "url"), ("--src-version", "version")):
        if r.random() < .2:
            v = r.choice(META)
            opts.append([o, v])
            st.append(("archive_set_" + k, "a0", q(v)))
    if unit:
        opts.append([r.choice(["-U", "--unit"]), str(unit)])
    spaces = prefixes(r, opts, st)
    form = r.choice(["doc"] * 8 + ["outer", "inner"])
    steps = transforms(r, spaces, opts, files) if form == "doc" and r.random() < .5 else []
    if form != "doc":
        opts.append(["--output-srcml-" + form])
    dest = r.choice([None, "out.xml", "out.xml.gz"])
    if dest:
        opts.append(["-o", dest])
    if form == "doc" and (not dest or r.random() < .3) or dest:
        opts.append([r.choice(["-X", "--output-srcml"])])
    if r.random() < .5:
        opts.append(["-j", str(r.randint(1, 5))])
    tr = [o for o in opts if o[0] in ("--xpath", "--xslt", "--relaxng")]
    rest = [o for o in opts if o not in tr]
    r.shuffle(rest)
    cut = r.randint(0, len(rest))
    argv = [x for o in rest[:cut] for x in o] + argv + [x for o in tr + rest[cut:] for x in o]
    c.add("acreate", "a0")
    if solitary:
        c.add("archive_enable_solitary_unit", "a0")
    for s in st + steps:
        c.add(*s)
    c.add("wopen", "a0", "mem", "m0")
    at = []
    for k, (data, alone, n) in enumerate(docs):
        c.add("acreate", "a1").add("ropen", "a1", "mem", q(data))
        if not alone and not unit and solitary:
            c.add("archive_disable_solitary_unit", "a0")
        if k == 0:
            c.add("copyns", "a0", "a1")
        for m in range(1, n + 1):
            c.add("read", "u0", "a1")
            if not unit or m == unit:
                if lang:
                    c.add("unit_set_language", "u0", q(lang))
                if form != "doc":
                    c.add("unit_get_srcml_" + form, "u0")
                    at.append(len(c.lines) - 1)
                elif steps:
                    c.add("apply", "a0", "u0", "r0").add("wresult", "a0", "r0").add("tfree", "r0")
                else:
                    c.add("archive_write_unit", "a0", "u0")
            c.add("ufree", "u0")
        c.add("afree", "a1")
    c.add("archive_close", "a0")
    c.add("mem", "m0")
    c.meta.update(out=len(c.lines) - 1, at=at)
    c.add("afree", "a0")
    return dict(files=files, argv=argv, stdin=b"", case=c, dest=dest, form=form, mtimes={}, units=[(None, None, d[0]) for d in docs], solitary=solitary, kinds=["srcML"])


def job(i, j, ctx, client):
    d = client.dir("j" + i)
    w = d + "/w"
    for n, b in j["files"].items():
        os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
        with open(os.path.join(w, n), "wb") as f:
            f.write(b)
    client.own(w)
    for n, t in j["mtimes"].items():
        os.utime(os.path.join(w, n), (t, t))
    res = client.run(j["argv"], w, timeout=60, stdin=j["stdin"])
    try:
        judge(ctx, j, res, w)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, j, res, w):
    text = vclient.script(j["files"], j["argv"], "stdin %r, modification times %r" % (j["stdin"], j["mtimes"]))
    what = "client %s" % " ".join(j["argv"])[:600]

    def bad(kind, msg):
        ctx.violation(kind, what + ": " + msg, [text], extra=res["err"][-2000:])

    if vclient.crashed(ctx, None, what, res, text):
        return
    if res["rc"] != 0:
        return bad("status", "exit status %s: %s" % (res["rc"], res["err"][-300:]))
    if "--relaxng" not in j["argv"] and [l for l in res["err"].split("\n") if l.strip() and not l.startswith("Warning: the encoding")]:
        return bad("message", "message %r" % res["err"][:300])
    if j["dest"]:
        p = os.path.join(w, j["dest"])
        data = open(p, "rb").read() if os.path.exists(p) else b""
        if res["out"]:
            return bad("stdout", "output goes to a file, and %r to standard output" % res["out"][:200])
        if p.endswith(".gz"):
            try:
                data = gzip.decompress(data) if data else b""
            except (OSError, EOFError) as e:
                return bad("compressed", "compressed output: %s" % e)
    else:
        data = res["out"]
    want = j["want"]
    ctx.tally("runs_" + "+".join(sorted(set(j["kinds"]))))
    ctx.tally("form_" + j["form"])
    for o in j["argv"]:
        if o.startswith("--"):
            ctx.tally("option_" + re.split("[=:]", o)[0])
    if data != want:
        if data.rstrip(b"\n") == want.rstrip(b"\n"):
            ctx.tally("line_end_at_the_end_differs")
        else:
            k = next((k for k in range(min(len(data), len(want))) if data[k] != want[k]), min(len(data), len(want)))
            return bad("output", "at byte %d: %r, the library gives %r" % (k, data[max(0, k - 100):k + 150], want[max(0, k - 100):k + 150]))
    ctx.seen((tuple(j["argv"]), tuple(u[2] for u in j["units"])), bool(want))
    ctx.sample({"arguments": j["argv"][:30], "bytes": len(want)})


def run(ctx):
    ctx.rule = RULE
    total = ctx.n(3200, 32000)
    client = vclient.Client("full")
    try:
        for lo in range(0, total, 1600):
            r = random.Random("C22-%s-%s-%d" % (ctx.seed, ctx.tier, lo))
            here = min(1600, total - lo)
            js = [make(r, lo + k) for k in range(here * 3 // 4)]
            ds = [document(r, k) for k in range(120)]
            res = ctx.pool("full").run(ds, batch=10)
            docs = []
            for d in ds:
                x = res[d.name]
                if not x.done:
                    ctx.crash(d, x)
                else:
                    docs.append((unq(x.lines[d.meta["out"]]), d.meta["alone"], d.meta["n"]))
            js += [makex(r, lo + k, [r.choice(docs) for _ in range(r.choice([1, 1, 1, 2, 3]))]) for k in range(here * 3 // 4, here) if docs]
            res = ctx.pool("full").run([j["case"] for j in js], batch=40)
            good = []
            for j in js:
                x = res[j["case"].name]
                if not x.done:
                    ctx.crash(j["case"], x)
                    continue
                if j["form"] == "doc":
                    v = x.lines[j["case"].meta["out"]]
                    j["want"] = unq(v) if v != "~" else b""
                else:
                    v = b""
                    for k in j["case"].meta["at"]:
                        s = unq(x.lines[k])
                        v += s + (b"" if s[-1:] == b"\n" or not s else b"\n")
                    j["want"] = v
                del j["case"]
                good.append(j)
            n, W = len(good), 8
            share = [n // W + (1 if w < n % W else 0) for w in range(W)]
            first = [sum(share[:w]) for w in range(W)]

            def one(r, i, sub):
                w, k = map(int, i.rsplit("o", 1)[1].split("_"))
                job(i, good[first[w] + k], sub, client)
            vclient.fan(ctx, client, n, one, tag="%do" % lo)
    finally:
        client.clean()
