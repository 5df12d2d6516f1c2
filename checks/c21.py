"""C21: the client extracts exactly the units' sources to exactly their files, and shows exactly the stored metadata."""
import bz2, gzip, io, os, shutil, tarfile, zipfile
import vclient
from xml.sax.saxutils import escape, quoteattr

RULE = ("the real client (option parser replaced) extracts random srcML archives - nested, odd, repeated and missing unit names, random texts, encodings and metadata - to directories, tar/zip/"
        "compressed archives, standard output and single files, and displays their metadata in every form; the file tree before and after, archive members, and output must be exactly what the "
        "generated archive holds; ASan+UBSan, unprivileged user in a scratch directory; non-trivial: distinct (command, archive shape) with at least one unit")

SRC = "http://www.srcML.org/srcML/src"
EXT = {"C": ".c", "C++": ".cpp", "Java": ".java", "C#": ".cs"}
PIECES = ["int a", " = ", "1", ";", "\n", "\n", "if (a < b && c > d)", " ", "\t", "\"s\"", "'c'", "// x\n", "/* <unit> */", "]]>", "{", "}", "&amp;", "%s%n", "\\", "x"]
WIDE = ["\u00e9", "\u00fc\u00df"]
WIDER = ["\u65e5\u672c", "\u20ac", "\U0001F600"]
ODD = ["a b", " lead", "trail ", "q'q", 'd"d', "a&b", "<x>", "per%41cent", "%s", "back\\slash", "col:on", "#h", "?q", "semi;", "$HOME", "*", "\u00fc", "\u65e5", "-dash", "~", "x" * 100, "two..dots", "...", ".hid", "a=b", "a+b", "[x]", "{y}"]


def texts(r, enc):
    p = PIECES + WIDE + (WIDER if enc not in (None, "ISO-8859-1") else [])
    return [r.choice(p) for _ in range(r.choice([0, 1, 3, 10, 40, r.choice([400, 3000])]))]


def diffed(r, parts):
    """the parts in regions of srcDiff, and the texts of both revisions"""
    xml, rev, i = "", ["", ""], 0
    while i < len(parts):
        n = r.choice([1, 1, 2, 5, 20])
        run = parts[i:i + n]
        i += n
        kind = r.choice(["common", "insert", "delete", ""])
        m = markup(r, run)
        xml += "<diff:%s>%s</diff:%s>" % (kind, m, kind) if kind else m
        for k, gone in enumerate(["insert", "delete"]):
            if kind != gone:
                rev[k] += "".join(run)
    return xml, rev


def markup(r, parts):
    """the parts with elements around some of them"""
    out, open_ = [], []
    for p in parts:
        if r.random() < .3:
            e = r.choice(["expr", "name", "block", "operator", "comment"])
            open_.append(e)
            out.append("<%s>" % e)
        out.append(escape(p))
        while open_ and r.random() < .4:
            out.append("</%s>" % open_.pop())
    while open_:
        out.append("</%s>" % open_.pop())
    return "".join(out)


class Archive:
    def __init__(self, r, names, solitary=None, enc=None, eol="\n", diff=False):
        self.r = r
        self.enc, self.eol = enc, eol
        self.solitary = r.random() < .15 if solitary is None else solitary
        self.xmlenc = r.choice(["UTF-8"] * 5 + ["ISO-8859-1", "windows-1252"])
        self.url = r.choice([None, "u", "http://x/?a=1&b", "\u00fc dir"])
        self.version = r.choice([None, "1.2", "v <1>"])
        self.ns = r.choice([[], [], [("p", "http://p")], [("p", "http://p"), ("q1", "urn:q")], [("cpp", "http://www.srcML.org/srcML/cpp")]])
        self.units = []
        self.revision = None
        if diff:
            self.ns = self.ns + [("diff", "http://www.srcML.org/srcDiff")]
            self.revision = r.choice([None, 0, 1, 0, 1])
        for i in range(1 if self.solitary else r.choice([0, 1, 2, 3, 5, 12, 40])):
            parts = texts(r, self.enc)
            u = dict(language=r.choice(["C", "C++", "Java", "C#"]), filename=names(r, i), version=r.choice([None, None, "2", "a&b"]), timestamp=r.choice([None, None, "Mon Jan 1"]),
                     hash=r.choice([None, "%040x" % r.getrandbits(160)]), text="".join(parts), xml=markup(r, parts))
            if diff:
                u["xml"], u["rev"] = diffed(r, parts)
            self.units.append(u)

    def xml(self):
        at = lambda d, ks: "".join(" %s=%s" % (a, quoteattr(d[k], {"\n": "&#10;"})) for a, k in ks if d.get(k) is not None)
        unit = [("language", "language"), ("filename", "filename"), ("version", "version"), ("timestamp", "timestamp"), ("hash", "hash")]
        head = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n<unit xmlns="%s"%s revision="1.0.0"%s' % (
            self.xmlenc, SRC, "".join(' xmlns:%s="%s"' % n for n in self.ns), ' url=%s' % quoteattr(self.url) if self.url is not None else "")
        if self.solitary:
            u = self.units[0]
            return (head + at(u, unit) + ">" + u["xml"] + "</unit>\n").encode(self.xmlenc, "xmlcharrefreplace")
        out = head + (' version=%s' % quoteattr(self.version) if self.version is not None else "") + ">\n"
        for u in self.units:
            out += '\n<unit revision="1.0.0"' + at(u, unit) + ">" + u["xml"] + "</unit>\n"
        return (out + "\n</unit>\n").encode(self.xmlenc, "xmlcharrefreplace")

    def read(self):
        """the units as they are read: an archive without units cannot be told from a unit"""
        return self.units or [dict(language=None, filename=None, version=self.version, timestamp=None, hash=None, text="\n\n")]

    def bytes(self, u):
        t = u["text"] if self.revision is None or "rev" not in u else u["rev"][self.revision]
        return t.replace("\n", self.eol).encode(self.enc or "latin-1")


def any_name(r, i):
    return r.choice([None, "", "f%d.c" % i, "d/f%d.cpp" % i, r.choice(ODD), "../up.c", "/abs/x.java", "f.c"])


def file_name(r, i):
    """distinct names that are usable as files below a directory; None for a unit without one"""
    if r.random() < .08:
        return None
    base = "f%d%s" % (i, r.choice([".c", ".cpp", ".java", "", ".cs", ".tar.gz", ".xml"]))
    if r.random() < .3:
        base = r.choice(ODD) + base
    if r.random() < .15:
        base = base + r.choice(ODD).replace("/", "")
    d = r.choice(["", "", "", "a/", "a/b/", "a/b/c/d/e/", r.choice(ODD).strip("./") + "x/", "./", "/abs/", "a//b/", "a/./"])
    return d + base


def snapshot(top):
    out = {}
    for p, ds, fs in os.walk(top):
        for x in ds:
            if os.path.islink(os.path.join(p, x)):
                fs.append(x)
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, top)] = open(q, "rb").read() if os.path.isfile(q) else "special"
    return out


def job(r, i, ctx, client):
    if r.random() < .15:
        return round_trip(r, i, ctx, client)
    cmd = r.choice(["todir"] * 5 + ["archive"] * 4 + ["stdout", "stdout", "unit", "file", "show", "show", "list", "info", "count", "prefix", "pretty"])
    extraction = cmd in ("todir", "archive")
    enc = r.choice(["UTF-8", "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", None, None])
    eol = r.choice([None, None, "unix", "lf", "LF", "windows", "crlf", "cr", "auto"])
    how = dict(enc=enc, eol={"windows": "\r\n", "crlf": "\r\n", "cr": "\r"}.get(eol, "\n"))
    if cmd in ("todir", "archive", "stdout", "unit", "file") and r.random() < .2:
        how["diff"] = True
    arch = [Archive(r, file_name if extraction else any_name, None if cmd != "todir" or r.random() < .5 else False, **how) for _ in range(1 if not extraction or r.random() < .75 else 2)]
    files = {"in%d.xml" % k: a.xml() for k, a in enumerate(arch)}
    if r.random() < .1 and cmd in ("todir", "archive", "stdout", "unit", "file"):
        files = {n + ".gz": gzip.compress(b) for n, b in files.items()}
    a = arch[0]
    for x in arch:
        x.revision = a.revision
    ins = sorted(files)
    stdin = b""
    argv, want_out, want_files, shape = [], b"", {}, (a.solitary, len(a.units), enc, eol)
    keep = dict(files)
    packed = None
    if cmd == "todir":
        if len(arch) > 1:
            for u in arch[1].units:
                if u["filename"]:
                    u["filename"] = "second/" + u["filename"].lstrip("/")
            files = {n: (gzip.compress(x.xml()) if n.endswith(".gz") else x.xml()) for n, x in zip(ins, arch)}
            keep = dict(files)
        out = r.choice(["out", "out/", "o u t", "deep/er/out", ".", "./", "./out"])
        argv = ins + r.choice([["--to-dir", out], ["--to-dir=" + out]])
        if r.random() < .25:       # something is there already
            for u in a.units[:3]:
                if u["filename"] and r.random() < .5:
                    n = os.path.normpath(out + "/" + u["filename"])
                    if not n.startswith(".."):
                        keep[n] = b"old content " * 300
        if r.random() < .3:
            keep[os.path.normpath(out + "/untouched/x.c")] = b"leave"
        for x in arch:
            for u in x.units:
                if u["filename"] is not None:
                    want_files[os.path.normpath(out + "/" + u["filename"])] = x.bytes(u)
    elif cmd == "archive":
        ext = r.choice([".tar", ".tar.gz", ".tgz", ".tar.bz2", ".zip"])
        argv = ins + ["-o", "res" + ext]
        members = []
        for x in arch:
            for k, u in enumerate(x.read()):
                n = u["filename"] or "srcml_unit_%d%s" % (k + 1, EXT.get(u["language"], ""))
                members.append((n, x.bytes(u)))
    elif cmd == "stdout":
        argv = ["-S", ins[0]]
        want_out = b"\0".join(a.bytes(u) for u in a.read())
        if r.random() < .25:
            argv += ["-o", "res.c.gz"]
            packed, want_out = want_out, b""
    elif cmd in ("unit", "file"):
        if not a.units:
            a = arch[0] = Archive(r, any_name, True, **how)
            files = {ins[0]: gzip.compress(a.xml()) if ins[0].endswith(".gz") else a.xml()}
            keep = dict(files)
        k = r.choice([1, len(a.units), r.randrange(1, len(a.units) + 1)])
        argv = ["--unit", str(k), ins[0]]
        if cmd == "unit":
            argv.append("-S")
            want_out = a.bytes(a.units[k - 1])
        else:
            argv += ["-o", "res.c"]
            want_files["res.c"] = a.bytes(a.units[k - 1])
            if r.random() < .3:
                keep["res.c"] = b"old " * 5000
    else:
        if not a.units:
            a = arch[0] = Archive(r, any_name, True, **how)
            files = {ins[0]: a.xml()}
            keep = dict(files)
        argv, want_out = metadata(r, cmd, a)
        if r.random() < .2:
            argv = argv + ["-"]
            stdin = files[ins[0]]
        else:
            argv = argv + [ins[0]]
    if cmd in ("todir", "archive", "stdout", "unit", "file"):
        more = ([["--src-encoding", enc], ["--src-encoding=" + enc]][r.randrange(2)] if enc else []) + ([["--eol", eol], ["--eol=" + eol]][r.randrange(2)] if eol else [])
        if a.revision is not None:
            more += ["--revision", str(a.revision)]
        argv = argv + more if r.random() < .5 else more + argv
    text = vclient.script(keep, argv, cmd)
    d = client.dir(client.flavor + i)
    w = d + "/w"
    for n, b in keep.items():
        os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
        with open(os.path.join(w, n), "wb") as f:
            f.write(b)
    open(d + "/sentinel", "w").write("x")
    client.own(d)
    try:
        before = snapshot(d)
        res = client.run(argv, w, timeout=60, stdin=stdin)
        after = snapshot(d)
        what = "client %s (archive of %d units, %s)" % (" ".join(argv)[:200], len(a.units), [u["filename"] for u in a.units][:8])

        def bad(kind, msg):
            ctx.violation(cmd + "-" + kind, what + ": " + msg, [text], extra=res["err"][-2000:])

        if vclient.crashed(ctx, client, what, res, text):
            return
        ctx.tally("command_" + cmd)
        ctx.tally("units", sum(len(x.units) for x in arch))
        expect = dict(before)
        for n, b in want_files.items():
            expect["w/" + n] = b
        if cmd == "archive":
            p = "w/res" + ext
            data = after.pop(p, None)
            if data is None:
                return bad("missing", "no archive was written")
            try:
                got = []
                if ext == ".zip":
                    z = zipfile.ZipFile(io.BytesIO(data))
                    got = [(m.filename, z.read(m)) for m in z.infolist()]
                else:
                    t = tarfile.open(fileobj=io.BytesIO(data), mode={".tar": "r:", ".tar.bz2": "r:bz2"}.get(ext, "r:gz"))
                    got = [(m.name, t.extractfile(m).read() if m.isfile() else None) for m in t.getmembers()]
            except Exception as e:
                if not (ext == ".zip" and not members):
                    return bad("unreadable", "the archive cannot be read: %s" % e)
            norm = lambda n: n if ext == ".zip" else n.rstrip("/")
            g, m = [(norm(n), b) for n, b in got], [(norm(n), b) for n, b in members]
            if g != m:
                return bad("members", "members %s, expected %s" % ([x for x in g if x not in m][:5] or [x[0] for x in g][:30], [x for x in m if x not in g][:5] or [x[0] for x in m][:30]))
        if packed is not None:
            z = after.pop("w/res.c.gz", None)
            try:
                z = gzip.decompress(z)
            except Exception as e:
                return bad("unreadable", "the compressed file cannot be read: %s" % e)
            if z != packed:
                return bad("packed", "the compressed file holds %r, expected %r" % (z[:300], packed[:300]))
        if after != expect:
            miss = [n for n in expect if n not in after]
            extra = [n for n in after if n not in expect]
            diff = [n for n in expect if n in after and after[n] != expect[n]]
            return bad("files", "missing %s, unexpected %s, different %s" % (miss[:6], extra[:6], [(n, after[n][:150], expect[n][:150]) for n in diff[:2]]))
        if cmd not in ("todir", "archive", "file") and res["out"] != want_out:
            k = next((j for j in range(min(len(want_out), len(res["out"]))) if want_out[j] != res["out"][j]), min(len(want_out), len(res["out"])))
            return bad("output", "output differs at byte %d: %r, expected %r" % (k, res["out"][max(0, k - 60):k + 120], want_out[max(0, k - 60):k + 120]))
        ctx.tally("files_compared", len(after))
        ctx.seen((cmd, shape, tuple(u["filename"] for u in a.units)[:6], argv[:4]), nontrivial=sum(len(x.units) for x in arch) > 0)
        ctx.sample({"arguments": argv, "names": [u["filename"] for u in a.units][:8]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def round_trip(r, i, ctx, client):
    """source to source in one run: the files come out as they were"""
    exts = [".c", ".cpp", ".java", ".cs", ".h", ".hpp"]
    enc = r.choice([None, None, "UTF-8", "ISO-8859-1"])
    files = {}
    for k in range(r.choice([1, 2, 3, 8, 30])):
        t = "".join(texts(r, enc)).encode("latin-1" if enc == "ISO-8859-1" else "utf-8", "replace")
        n = r.choice(["", "", "d/", "d/e/", "o o/"]) + "s%d%s" % (k, r.choice(exts))
        files[n] = t
    names = sorted(files)
    r.shuffle(names)
    cmd = r.choice(["todir", "archive", "stdout", "unit", "first"])
    argv, want_out, want_files, members = list(names), b"", {}, None
    if cmd == "todir":
        argv += ["--archive", "-o", "all.xml"]
        want_files = {"w/out/" + n: b for n, b in files.items()}
    elif cmd == "archive":
        ext = r.choice([".tar", ".zip", ".tar.gz"])
        argv += ["-S", "-o", "res" + ext]
        members = [(n, files[n]) for n in names]
    elif cmd == "stdout":
        argv += ["-S"]
        want_out = b"\0".join(files[n] for n in names)
    else:
        k = r.randrange(1, len(names) + 1) if cmd == "unit" else 1
        argv += ["-S", "--unit", str(k)]
        want_out = files[names[k - 1]]
    if enc:
        argv += ["--src-encoding", enc]
    argv += r.choice([[], ["--jobs", "1"], ["--jobs", "7"], ["--position"], ["--hash"], ["--archive"], ["--cpp"]])
    text = vclient.script(files, argv, "round")
    d = client.dir(client.flavor + i)
    w = d + "/w"
    for n, b in files.items():
        os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
        with open(os.path.join(w, n), "wb") as f:
            f.write(b)
    client.own(d)
    try:
        before = snapshot(d)
        res = client.run(argv, w, timeout=60)
        if cmd == "todir":
            text += vclient.script({}, ["all.xml", "--to-dir", "out"] + (["--src-encoding", enc] if enc else []), "round")
            if not res["err"]:
                res = client.run(["all.xml", "--to-dir", "out"] + (["--src-encoding", enc] if enc else []), w, timeout=60)
        after = snapshot(d)
        if cmd == "todir":
            after.pop("w/all.xml", None)
        what = "client %s (%d sources)" % (" ".join(argv)[-200:], len(files))

        def bad(kind, msg):
            ctx.violation("round-" + cmd + "-" + kind, what + ": " + msg, [text], extra=res["err"][-2000:])

        if vclient.crashed(ctx, client, what, res, text):
            return
        ctx.tally("command_round_" + cmd)
        if members is not None:
            data = after.pop("w/res" + ext, None)
            try:
                if ext == ".zip":
                    z = zipfile.ZipFile(io.BytesIO(data))
                    got = [(m.filename, z.read(m)) for m in z.infolist()]
                else:
                    t = tarfile.open(fileobj=io.BytesIO(data))
                    got = [(m.name, t.extractfile(m).read()) for m in t.getmembers()]
            except Exception as e:
                return bad("unreadable", "the archive cannot be read: %s" % e)
            if got != members:
                return bad("members", "members %s, expected %s" % ([x for x in got if x not in members][:3] or [x[0] for x in got], [x for x in members if x not in got][:3] or [x[0] for x in members]))
        expect = dict(before, **want_files)
        if after != expect:
            diff = [n for n in expect if n in after and after[n] != expect[n]]
            return bad("files", "missing %s, unexpected %s, different %s" % ([n for n in expect if n not in after][:6], [n for n in after if n not in expect][:6], [(n, after[n][:150], expect[n][:150]) for n in diff[:2]]))
        if res["out"] != want_out:
            k = next((j for j in range(min(len(want_out), len(res["out"]))) if want_out[j] != res["out"][j]), min(len(want_out), len(res["out"])))
            return bad("output", "output differs at byte %d: %r, expected %r" % (k, res["out"][max(0, k - 60):k + 120], want_out[max(0, k - 60):k + 120]))
        ctx.tally("files_compared", len(after))
        ctx.seen(("round", cmd, tuple(names)[:6], enc), nontrivial=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SHOW = [("language", "language"), ("filename", "filename"), ("src-version", "version"), ("hash", "hash"), ("timestamp", "timestamp")]
ORDER = [("filename", "filename", "filename"), ("language", "language", "language"), ("src-version", "version", "version"), ("hash", "hash", "hash"), ("timestamp", "timestamp", "timestamp")]


def metadata(r, cmd, a):
    root_version = a.units[0]["version"] if a.solitary else a.version
    if cmd == "show":
        head = [h for h in ("encoding", "url") if r.random() < .25]
        body = [o for o in ORDER if r.random() < .35]
        if r.random() < .4:
            head, body = r.choice([(["encoding"], []), (["url"], [])] + [([], [o]) for o in ORDER])
        if not head and not body:
            body = [r.choice(ORDER)]
        argv = ["--show-" + h for h in head] + ["--show-" + o[0] for o in body]
        r.shuffle(argv)
        n = 0
        one = len(head) + len(body) == 1
        units = a.units
        if r.random() < .2:
            n = r.randrange(1, len(a.units) + 1)
            argv += ["--unit", str(n)]
            units = [a.units[n - 1]]
        out = ""
        hv = {"encoding": a.xmlenc, "url": a.url}
        # a section whose single value is not there is left out
        if len(head) == 1 and hv[head[0]] is None:
            pass
        else:
            for h in head:
                out += "%s\n" % (hv[h] or "") if one else "%s=\"%s\"\n" % (h, hv[h] or "")
        for u in units:
            if len(body) == 1 and u[body[0][2]] is None:
                continue
            for o in body:
                v = u[o[2]]
                v = "" if v is None else v
                out += v + "\n" if one else "%s=\"%s\"\n" % (o[1], v)
        return argv, out.encode()
    if cmd == "count":
        return ["--show-unit-count"], b"%d\n" % len(a.units)
    if cmd == "prefix":
        ns = a.ns + [("", SRC)]
        p, u = r.choice(ns + [(None, "http://none")])
        return ["--show-prefix", u], b"" if p is None else p.encode() + b"\n"
    if cmd == "list":
        # the line counts are those of the text
        out, total = "XML encoding: %s\n" % a.xmlenc, 0
        for k, u in enumerate(a.units):
            loc = lines(u["text"])
            total += loc
            out += "%5d%5s %5d %s %s\n" % (k + 1, u["language"], loc, u["hash"] or "", u["filename"] or "")
        return [r.choice(["--list", "-L"])], (out + "units: %d\nLOC: %d\n" % (len(a.units), total)).encode()
    if cmd == "info":
        out = "".join('xmlns%s="%s"\n' % (":" + p if p else "", u) for p, u in [("", SRC)] + a.ns) + 'encoding="%s"\n' % a.xmlenc
        if a.solitary:
            out += 'language="%s"\n' % a.units[0]["language"]
        if a.url is not None:
            out += 'url="%s"\n' % a.url
        if a.solitary and a.units[0]["filename"] is not None:
            out += 'filename="%s"\n' % a.units[0]["filename"]
        full = r.random() < .5
        if full:
            out += 'units="%d"\n' % len(a.units)
        return [r.choice(["--full-info", "-I"]) if full else r.choice(["--info", "-i"])], out.encode()
    # pretty: sections with at least two values each
    val = lambda v: "" if v is None else v
    arch = {"U": val(a.url), "X": a.xmlenc, "V": val(root_version)}
    ns = [("", SRC)] + a.ns
    spaces = {"N": " ".join("xmlns%s=%s" % (":" + p if p else "", u) for p, u in ns), "N:u": " ".join(u for p, u in ns), "N:p": " ".join(p for p, u in ns)}
    if r.random() < .12:
        # a format that is refused shows nothing
        bad = r.choice(["{ %f%l ", "%f%l }", "%q%f", "%f%q", "%C%f", "{ %f%C } %U", "%f%l{ %U%V } %U", "%U%V { %f%l } %f%U", "%"])
        if bad != "%":
            return ["--pretty", bad], b""
    sec = lambda keys, n: [r.choice(keys) for _ in range(n)]
    seps = ["|", ", ", "::", " - ", "=%%", "[", "\n"]
    out, fmt = "", ""

    def section(keys, values):
        f, ks = "", sec(keys, r.choice([2, 3]))
        for k in ks:
            f += r.choice(seps) + "%" + k
        f += r.choice(seps)
        return f, lambda vals: render(f, vals)

    def render(f, vals):
        o, j = "", 0
        while j < len(f):
            if f[j] == "%":
                k = f[j + 1:j + 4] if f[j + 1:j + 4] in vals else f[j + 1]
                o += "%" if k == "%" else vals[k]
                j += 1 + len(k)
            else:
                o += f[j]
                j += 1
        return o

    hf, hr = section("UXV", arch)
    bf, br = section(["f", "l", "v", "h", "t", "U", "X", "V", "i", "N", "N:u", "N:p"], arch)
    ff, fr = section("UXVC", arch)
    hs, fs = r.random() < .5, r.random() < .5
    if hs or fs:
        fmt = (hf + " " if hs else "") + "{ " + bf + " } " + (ff if fs else "")
    else:
        fmt = bf
    # the format is split at the first braces
    if hs:
        out += hr(arch)
    for k, u in enumerate(a.units):
        out += br(dict(arch, **spaces, f=val(u["filename"]), l=val(u["language"]), v=val(u["version"]), h=val(u["hash"]), t=val(u["timestamp"]), i=str(k)))
    if fs:
        out += fr(dict(arch, C=str(len(a.units))))
    return ["--pretty", fmt], out.encode()


def lines(t):
    return t.count("\n") + (1 if t and not t.endswith("\n") else 0)


def probe(ctx, client):
    """known finding: a name with .. reaches above the destination (all in a scratch directory, as an unprivileged user)"""
    d = client.dir("probe")
    w = d + "/w"
    xml = b'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="%s" revision="1.0.0">\n\n<unit revision="1.0.0" language="C" filename="../above.c">a;</unit>\n\n</unit>\n' % SRC.encode()
    open(w + "/in.xml", "wb").write(xml)
    client.own(d)
    try:
        res = client.run(["in.xml", "--to-dir", "out"], w)
        ctx.tally("probe_runs")
        if os.path.exists(w + "/above.c"):
            ctx.violation("probe", "a unit named ../above.c is written above the destination directory", [vclient.script({"in.xml": xml}, ["in.xml", "--to-dir", "out"], "probe")], key="dotdot-name", extra=res["err"][-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.rule = RULE
    client = vclient.Client("full")
    try:
        probe(ctx, client)
        vclient.fan(ctx, client, ctx.n(2500, 25000), lambda r, i, sub: job(r, i, sub, client), tag="x")
    finally:
        client.clean()
