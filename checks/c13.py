"""C13: API calls in any order with any arguments report errors, never misbehave."""
import gen
from vrun import Case, q, unq

RULE = ("random histories of 10 to 60 calls over the whole public API on up to three archives (created, cloned, open for reading or writing, closed, reopened) and six units (empty, parsed, partly written, read, cloned) and the "
        "global archive, with valid, odd, null and out-of-range arguments, under ASan and UBSan; every live object is dumped through all of its getters after every call: invalid arguments and wrong states rejected, rejected "
        "calls change nothing, a setter changes what its getter returns and nothing else, other calls leave settings alone; non-trivial: a call that was rejected or in an unusual state, counted as distinct (call before, call, state, argument class)")

CPP, POS, ERR, SRC = "http://www.srcML.org/srcML/cpp", "http://www.srcML.org/srcML/position", "http://www.srcML.org/srcML/srcerr", "http://www.srcML.org/srcML/src"
STR = ["", "a", "x y", "C++", "Java", "Nope", "UTF-8", "ISO-8859-1", "no-such-encoding", "<&\">'", "\u00e9\u4e2d", "%s%n%x", "a" * 300, "\n\t", "file.cpp", "{}", "|", "a|b", "-1", "1.0"]
DOC = ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0" url="U">\n\n<unit revision="1.0.0" language="C++" filename="a.cpp"><expr_stmt><expr><name>a</name></expr>;</expr_stmt>\n</unit>\n\n'
       '<unit revision="1.0.0" language="C" filename="b.c"/>\n\n<unit revision="1.0.0" language="Java" filename="c.java"><name>c</name></unit>\n\n</unit>\n')
SOL = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="http://www.srcML.org/srcML/src" xmlns:cpp="http://www.srcML.org/srcML/cpp" revision="1.0.0" language="C++" filename="s.cpp" tabs="4"><name>s</name>;\n</unit>\n'
DIFF = ('<unit xmlns="http://www.srcML.org/srcML/src" xmlns:diff="http://www.srcML.org/srcDiff" revision="1.0.0" language="C++" filename="x|y"><diff:delete type="delete"><name>o</name></diff:delete><diff:insert type="insert"><name>n</name></diff:insert></unit>')
BAD = ["", "x", "<unit", "<unit><unit></unit>", "<a/>", "<unit xmlns='http://www.srcML.org/srcML/src'></b>", "\x00\xff"]
SIZES = ["0", "1", "2", "3", "4", "5", "8", "16", "127", "128", "255", "65535", "65536", "4294967295", "4294967296", "-1", "9223372036854775807"]

# setters: name -> (field of the dump, kind of argument)
ASET = {"archive_set_xml_encoding": "xml", "archive_set_src_encoding": "src", "archive_set_language": "lang", "archive_set_url": "url", "archive_set_version": "ver"}
USET = {"unit_set_src_encoding": "src", "unit_set_language": "lang", "unit_set_filename": "file", "unit_set_version": "ver", "unit_set_timestamp": "time"}
GSET = {"set_xml_encoding": "xml", "set_src_encoding": "src", "set_language": "lang", "set_url": "url", "set_version": "ver", "set_filename": "file", "set_timestamp": "time"}
AGET = [("archive_get_xml_encoding", "~"), ("archive_get_src_encoding", "~"), ("archive_get_revision", "~"), ("archive_get_language", "~"), ("archive_get_url", "~"), ("archive_get_version", "~"), ("archive_get_options", "0"),
        ("archive_get_tabstop", "0"), ("archive_get_namespace_size", "0"), ("archive_get_processing_instruction_target", "~"), ("archive_get_processing_instruction_data", "~"), ("archive_is_solitary_unit", "0"),
        ("archive_has_hash", "0"), ("archive_error_number", None), ("archive_error_string", None), ("archive_get_srcdiff_revision", "2")]
UGET = [("unit_get_src_encoding", "~"), ("unit_get_revision", "~"), ("unit_get_language", "~"), ("unit_get_filename", "~"), ("unit_get_version", "~"), ("unit_get_timestamp", "~"), ("unit_get_hash", "~"), ("unit_get_loc", "-1"),
        ("unit_get_eol", "0"), ("unit_get_srcml", "~"), ("unit_get_srcml_outer", "~"), ("unit_get_srcml_inner", "~"), ("unit_error_number", None), ("unit_error_string", None)]


class Gen:
    def __init__(self, r, i):
        self.r, self.c = r, Case("c" + i, leak=r.random() < .1, limit=25)
        self.A, self.U = {}, {}        # name -> mode / (archive, state)
        self.steps = []
        self.c.meta["steps"] = self.steps
        self.glob = r.random() < .25
        self.rslots = set()
        self.io = 3
        self.inst = False

    def s(self, null=.12):
        return "~" if self.r.random() < null else q(self.r.choice(STR))

    def num(self):
        return self.r.choice(SIZES)

    def emit(self, op, cls, **m):
        """one call, then the state of everything"""
        at = len(self.c.lines)
        self.c.add(*op)
        if m.get("also"):
            self.c.add(*m["also"])
        d = {}
        for a in self.A:
            d[a] = len(self.c.lines)
            self.c.add("adump " + a)
        for u in self.U:
            d[u] = len(self.c.lines)
            self.c.add("udump " + u)
        if self.glob:
            d["g"] = len(self.c.lines)
            self.c.add("gdump")
        self.steps.append(dict(m, at=at, op=op, cls=cls, d=d))

    def arch(self, null=.06):
        return "~" if self.r.random() < null or not self.A else self.r.choice(list(self.A))

    def unit(self, null=.06):
        return "~" if self.r.random() < null or not self.U else self.r.choice(list(self.U))

    def free(self, kind, lo, hi):
        live = self.A if kind == "a" else self.U
        return next(("%s%d" % (kind, k) for k in range(lo, hi) if "%s%d" % (kind, k) not in live), None)

    def step(self):
        r = self.r
        z = r.random()
        if not self.A or z < .04:
            n = self.free("a", 0, 3)
            if n:
                if self.A and r.random() < .5:
                    o = self.arch()
                    if o == "~":
                        return self.emit(("aclone", n, "~"), "null", rej="0")if not self.inst else None
                    self.A[n] = "none"
                    return self.emit(("aclone", n, o), "clone", expect="1", clone=(n, o))
                self.A[n] = "none"
                return self.emit(("acreate", n), "create", expect="1", fresh=n)
            z = r.random()
        if z < .09:
            n = self.free("u", 0, 6)
            if n:
                if self.U and r.random() < .4:
                    o = self.unit()
                    if o != "~":
                        self.U[n] = (self.U[o][0], "empty")
                        return self.emit(("uclone", n, o), "clone", expect="1", clone=(n, o))
                    return self.emit(("uclone", n, "~"), "null", rej="0")
                a = self.arch()
                if a == "~":
                    return self.emit(("ucreate", n, "~"), "null", rej="0")
                self.U[n] = (a, "empty")
                return self.emit(("ucreate", n, a), "create", expect="1", fresh=n)
        if z < .12:
            n = self.unit()
            if n == "~":
                return self.emit(("ufree", "~"), "null")
            self.U.pop(n)
            return self.emit(("ufree", n), "free")
        if z < .135:
            n = self.arch()
            if n == "~":
                return self.emit(("afree", "~"), "null")
            us = [u for u, v in self.U.items() if v[0] == n]
            for u in us:
                self.U.pop(u)
                self.c.add("ufree " + u)
            for k in list(self.rslots):
                self.c.add("tfree " + k)
                self.rslots.discard(k)
            self.A.pop(n)
            return self.emit(("afree", n), "free")
        if z < .30:
            return self.aset()
        if z < .40:
            return self.uset()
        if z < .46:
            return self.get()
        if z < .54:
            return self.open()
        if z < .58:
            a = self.arch()
            if a != "~":
                self.A[a] = "none"
            return self.emit(("archive_close", a), "close")
        if z < .66:
            return self.rw()
        if z < .74:
            return self.parse()
        if z < .84:
            return self.write()
        if z < .94:
            return self.transform()
        if self.glob:
            return self.globals()
        return self.misc()

    def aset(self):
        r, a = self.r, self.arch()
        k = r.random()
        n = dict(rej="!0") if a == "~" else {}
        if k < .4:
            op = r.choice(list(ASET))
            v = self.s()
            return self.emit((op, a, v), "null" if v == "~" else "s", sets=(a, ASET[op], v), **(n or dict(expect="0")))
        if k < .6:
            op = r.choice(["archive_set_options", "archive_enable_option", "archive_disable_option"])
            # only options there are; the rest are internal
            v = str(r.choice([0, 1, 2, 4, 8, 16, 32, 64, 127, 12, 36, 6]))
            if op == "archive_disable_option" and int(v) & 8:
                v = str(int(v) & ~8)
            return self.emit((op, a, v), "n", opt=(a, op, int(v)), **(n or dict(expect="0")))
        if k < .68:
            v = self.num()
            return self.emit(("archive_set_tabstop", a, v), "n", sets=(a, "tab", v), **(n or dict(expect="0")))
        if k < .76:
            op, f, v = r.choice([("archive_enable_solitary_unit", "sol", "1"), ("archive_disable_solitary_unit", "sol", "0"), ("archive_enable_hash", "hash", "1"), ("archive_disable_hash", "hash", "0")])
            return self.emit((op, a), "b", sets=(a, f, v), **(n or dict(expect="0")))
        if k < .86:
            p, u = r.choice(["~", "'", "'p", "'src", "'" + "q" * 40, "'cpp"]), r.choice(["~", q("urn:x"), q("urn:y"), q(CPP), q(SRC), q("http://www.srcML.org/srcDiff"), "'"])
            if "~" in (a, p, u):
                return self.emit(("archive_register_namespace", a, p, u), "null", rej="!0")
            return self.emit(("archive_register_namespace", a, p, u), "ns", ns=(a, p, u), expect="0")
        if k < .92:
            t, d = self.s(.2), self.s(.2)
            if "~" in (a, t, d):
                return self.emit(("archive_set_processing_instruction", a, t, d), "null", rej="!0")
            return self.emit(("archive_set_processing_instruction", a, t, d), "s", sets=(a, "pit", t), sets2=("pid", d), expect="0")
        if k < .96:
            e, l = self.s(.2), r.choice(["~", "'C", "'C++", "'Java", "'C#", "'Nope", "'"])
            if "~" in (a, e, l):
                return self.emit(("archive_register_file_extension", a, e, l), "null", rej="!0")
            return self.emit(("archive_register_file_extension", a, e, l), "s", expect="0" if l[1:] in ("C", "C++", "Java", "C#") else None, rej=None if l[1:] in ("C", "C++", "Java", "C#") else "!0", same=True)
        v = self.num()
        if v in ("0", "1") and a != "~":
            return self.emit(("archive_set_srcdiff_revision", a, v), "n", sets=(a, "sd", v), expect="0")
        return self.emit(("archive_set_srcdiff_revision", a, v), "range", rej="!0")

    def uset(self):
        r, u = self.r, self.unit()
        n = dict(rej="!0") if u == "~" else dict(expect="0")
        if r.random() < .8:
            op = r.choice(list(USET))
            v = self.s()
            return self.emit((op, u, v), "null" if v == "~" else "s", sets=(u, USET[op], v), **n)
        v = self.num()
        if v in ("0", "1", "2", "3"):
            return self.emit(("unit_set_eol", u, v), "n", sets=(u, "eol", v), **n)
        return self.emit(("unit_set_eol", u, v), "range", rej="!0")

    def get(self):
        r = self.r
        k = r.random()
        if k < .3:
            a = self.arch(.4)
            op, nul = r.choice(AGET)
            if nul is None and a != "~":
                return
            return self.emit((op, a), "get", same=True, **(dict(rej=nul) if a == "~" and nul else {}))
        if k < .6:
            u = self.unit(.3)
            op, nul = r.choice(UGET)
            return self.emit((op, u), "get", lazy=True, **(dict(rej=nul) if u == "~" and nul else dict(empty="~") if u != "~" and "srcml" in op and self.U[u][1] == "empty" else {}))
        a = self.arch()
        if k < .75:
            op = r.choice(["archive_get_namespace_prefix", "archive_get_namespace_uri"])
            v = self.num()
            big = int(v) < 0 or int(v) > 60
            return self.emit((op, a, v), "range", same=True, **(dict(rej="~") if a == "~" or big else {}))
        if k < .9:
            op = r.choice(["archive_get_prefix_from_uri", "archive_get_uri_from_prefix", "archive_check_extension"])
            v = self.s(.3)
            return self.emit((op, a, v), "null" if v == "~" else "s", same=True, **(dict(rej="~") if "~" in (a, v) else {}))
        op = r.choice([("check_language", self.s(.3)), ("check_extension", self.s(.3)), ("check_encoding", self.s(.3)), ("get_language_list", self.num()), ("error_string", r.choice(["0", "1", "7", "100", "-1"])), ("version_number",), ("check_xslt",),
                       ("get_language_list_size",)])
        m = {}
        if op[0] == "get_language_list":
            m = dict(rej="~") if int(op[1]) < 0 or int(op[1]) > 16 else {}
        if op[0] in ("check_language", "check_encoding") and op[1] == "~":
            m = dict(rej="0")
        if op[0] == "check_extension" and op[1] == "~":
            m = dict(rej="~")
        if op[0] == "error_string":
            return
        self.emit(op, "null" if "~" in op else "s", same=True, **m)

    def open(self):
        r, a = self.r, self.arch()
        st = "null" if a == "~" else self.A[a]
        if r.random() < .5:
            k = r.random()
            if k < .25:
                kind = r.choice([("null", "5"), ("nullfile", "0"), ("nullFILE", "0"), ("badfd", "-1"), ("nullio", "0"), ("mem", "'")])
                return self.emit(("ropen", a) + kind, st + "-null", rej="!0")
            if k < .45:
                src = r.choice(BAD)
                bad = True
            else:
                src, bad = r.choice([DOC, DOC, SOL, DIFF]), False
            kind = r.choice(["mem", "file", "io", "FILE", "fd", "ionc"])
            if kind == "mem" and not src:
                kind = "io"
            if st in ("null", "read", "write", "xml"):
                return self.emit(("ropen", a, kind, q(src)), st, rej="!0")
            # what cannot be parsed may be found out when it is opened or later
            enc = self.c.lines and False
            self.A[a] = "maybe"
            return self.emit(("ropen", a, kind, q(src)), st, rebase=a, isopen=(a, "read"))
        k = r.random()
        if k < .25:
            kind = r.choice([("null", "5"), ("nullfile", "0"), ("nullFILE", "0"), ("badfd", "-1"), ("nullio", "0")])
            return self.emit(("wopen", a) + kind, st + "-null", rej="!0")
        self.io += 1
        kind = r.choice(["mem", "file", "io", "FILE", "fd"])
        if st in ("null", "read", "write"):
            # another destination, which stays as it is
            if kind in ("mem",):
                return self.emit(("wopen", a, "mem", "m40"), st, rej="!0")
            return self.emit(("wopen", a, "io", str(self.io)), st, rej="!0")
        d = {"mem": "m%d" % (int(a[1:]) if a != "~" else 9), "io": str(self.io)}.get(kind, "'w%d" % self.io)
        if kind == "mem" and self.io > 30:
            kind, d = "io", str(self.io)
        elif kind == "mem":
            d = "m%d" % self.io
        if st == "maybe":
            return
        self.A[a] = "write"
        return self.emit(("wopen", a, kind, d), st, expect="0", same=True)

    def rw(self):
        r, a = self.r, self.arch()
        st = "null" if a == "~" else self.A[a]
        k = r.random()
        if k < .4:
            n = self.free("u", 0, 6)
            if not n:
                return
            if st not in ("read", "maybe"):
                return self.emit(("read", n, a), st, rej="0")
            self.U[n] = (a, "read")
            return self.emit(("read", n, a), st, lazy=True, fresh=n)
        if k < .5:
            return self.emit(("archive_skip_unit", a), st, lazy=True, **(dict(rej="0") if st not in ("read", "maybe") else {}))
        if k < .85:
            u = self.unit()
            us = "null" if u == "~" else self.U[u][1]
            rej = a == "~" or u == "~" or st in ("none", "read") or us == "empty"
            return self.emit(("archive_write_unit", a, u), st + "-" + us, lazy=True, **(dict(rej="!0") if rej else {}))
        s = self.s(.2)
        n = len((unq(s) or b"")) if s != "~" else 0
        v = r.choice([n, n, 0, n // 2])
        rej = a == "~" or s == "~" or st in ("none", "read")
        return self.emit(("archive_write_string", a, s, str(v)), st, same=True, **(dict(rej="!0") if rej else {}))

    def parse(self):
        r, u = self.r, self.unit()
        us = "null" if u == "~" else self.U[u][1]
        k = r.random()
        if k < .3:
            kind = r.choice([("null", "5"), ("nullfile", "0"), ("nullFILE", "0"), ("badfd", "-1"), ("nullio", "0")])
            return self.emit(("parse", u) + kind, us + "-null", rej="!0")
        if k < .4:
            return self.emit(("parse", u, "name", "'no-such-file"), us, rej="!0")
        if k < .8:
            t = r.choice(["", "a;", "int a;\nint f() { return 1; }\n", "#if 1\nx\n#endif\n", "\x00\x01\x80\xff", "// \u00e9\n", gen.anytext(r, r.choice(gen.LANGS))[:300]])
            kind = r.choice(["mem", "file", "FILE", "fd", "io", "ionc"])
            if u != "~":
                self.U[u] = (self.U[u][0], "maybe" if us != "part" else "part")
            return self.emit(("parse", u, kind, q(t)), us, lazy=True, uany=u, **(dict(rej="!0", io=True) if u == "~" else {}))
        # unparse
        kind = r.choice([("null", "0"), ("nullfile", "0"), ("nullFILE", "0"), ("badfd", "-1"), ("nullio", "0")])
        if r.random() < .4:
            return self.emit(("unparse", u) + kind, us + "-null", rej="!0", lazy=True)
        st = "null" if u == "~" else self.A[self.U[u][0]]
        self.io += 1
        rej = st in ("none", "write", "null") or us == "empty"
        return self.emit(("unparse", u, "io", str(self.io)), us + "-" + st, lazy=True, **(dict(rej="!0") if rej else {}))

    def write(self):
        r, u = self.r, self.unit()
        us = "null" if u == "~" else self.U[u][1]
        k = r.random()
        if k < .25:
            if u != "~" and us != "part":
                self.U[u] = (self.U[u][0], "part")
            return self.emit(("write_start_unit", u), us, lazy=True, uany=u, **(dict(rej="!0") if us == "null" else {}))
        if k < .42:
            if us == "part":
                self.U[u] = (self.U[u][0], "written")
            return self.emit(("write_end_unit", u), us, lazy=True, uany=u, **(dict(rej="!0") if us in ("null", "empty") else {}))
        inside = us == "part"
        if k < .6:
            p, n, x = r.choice(["~", "'", "'src", "'p"]), r.choice(["~", "'name", "'expr", "'"]), r.choice(["~", q(SRC), q("urn:x")])
            if n == "'":
                n = "'n"
            return self.emit(("write_start_element", u, p, n, x), us, same=True, **(dict(rej="!0") if n == "~" or not inside else {}))
        if k < .7:
            return self.emit(("write_end_element", u), us, same=True, **(dict(rej="!0") if not inside else {}))
        if k < .78:
            p, x = r.choice(["~", "'p", "'z"]), r.choice(["~", q("urn:x")])
            return self.emit(("write_namespace", u, p, x), us, same=True, **(dict(rej="!0") if x == "~" or not inside else {}))
        if k < .88:
            n, v = r.choice(["~", "'a", "'b"]), self.s(.2)
            return self.emit(("write_attribute", u, "~", n, "~", v), us, same=True, **(dict(rej="!0") if n == "~" or not inside else {}))
        v = self.s(.2)
        return self.emit(("write_string", u, v), us, same=True, **(dict(rej="!0") if v == "~" or not inside else {}))

    def transform(self):
        r, a = self.r, self.arch()
        st = "null" if a == "~" else self.A[a]
        k = r.random()
        if k < .3:
            op = r.choice(["append_transform_xpath", "append_transform_xpath_attribute", "append_transform_xpath_element"])
            args = [r.choice(["~", "'//src:name", "'//", "'", "'count(//*)", "'string(.)", "'/src:unit", "'//@*", "'1=1", "'$x", "'p:a"])]
            if op != "append_transform_xpath":
                args += [r.choice(["~", "'p", "'p"]), r.choice(["~", q("urn:p")]), r.choice(["~", "'n"])]
            if op.endswith("attribute"):
                args += [r.choice(["~", "'v"])]
            op = (op, a) + tuple(x if x[0] != "'" else q(x[1:]) for x in args)
            return self.emit(op, "null" if "~" in op else st, same=True, **(dict(rej="!0") if "~" in op else {}))
        if k < .4:
            kind = r.choice([("null", "5"), ("nullfile", "0"), ("nullFILE", "0"), ("badfd", "-1")])
            if r.random() < .5:
                return self.emit((r.choice(["xslt", "relaxng"]), a) + kind, "null", same=True, rej="!0")
            t = r.choice(["<x/>", "", "<", '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><xsl:template match="/"><a/></xsl:template></xsl:stylesheet>',
                          '<element name="unit" xmlns="http://relaxng.org/ns/structure/1.0" ns="http://www.srcML.org/srcML/src"><text/></element>'])
            return self.emit((r.choice(["xslt", "relaxng"]), a, r.choice(["mem", "file"]) if t else "file", q(t)), st, same=True, **(dict(rej="!0") if a == "~" else {}))
        if k < .5:
            op = (r.choice(["append_transform_param", "append_transform_stringparam"]), a, self.s(.2), self.s(.2))
            return self.emit(op, "null" if "~" in op else st, same=True, **(dict(rej="!0") if "~" in op else {}))
        if k < .56:
            return self.emit(("clear_transforms", a), st, same=True, **(dict(rej="!0") if a == "~" else dict(expect="0")))
        if k < .8:
            u = self.unit()
            x = r.choice(["~", "r0", "r1", "r2"])
            us = "null" if u == "~" else self.U[u][1]
            if x != "~":
                self.rslots.add(x)
                for w in [w for w, v in self.U.items() if v[1] == "res-" + x]:
                    self.U.pop(w)
                    self.c.add("ufree " + w)
            if u != "~" and u not in self.U:
                return
            if u != "~" and us == "empty":
                pass
            elif u != "~":
                self.U[u] = (self.U[u][0], us)
            return self.emit(("apply", a, u, x), st + "-" + us, lazy=True, uany=u, **(dict(rej="!0") if "~" in (a, u) else {}))
        x = r.choice(["~", "r0", "r1", "r2"])
        op = r.choice(["transform_get_type", "transform_get_unit_size", "transform_get_string", "transform_get_number", "transform_get_bool", "tunit"])
        if op == "tunit":
            return self.emit(("tunit", "u200", x, r.choice(["-1", "0", "1", "100", "2147483647", "-2147483648"])), "range", same=True, idx=True)
        nul = {"transform_get_type": "0", "transform_get_unit_size": "0", "transform_get_string": "~"}.get(op)
        return self.emit((op, x), "get", same=True, **(dict(rej=nul) if nul and x not in self.rslots else {}))

    def globals(self):
        r = self.r
        k = r.random()
        if k < .5:
            op = r.choice(list(GSET))
            v = self.s()
            return self.emit((op, v), "null" if v == "~" else "s", sets=("g", GSET[op], v), expect="0")
        if k < .6:
            v = self.num()
            return self.emit(("set_tabstop", v), "n", sets=("g", "tab", v), expect="0")
        if k < .7:
            op = r.choice(["set_options", "enable_option", "disable_option"])
            v = r.choice([0, 1, 2, 4, 16, 32, 64, 119, 36])
            return self.emit((op, str(v)), "n", opt=("g", "archive_" + op, v), expect="0")
        if k < .78:
            v = self.num()
            if v in ("0", "1", "2", "3"):
                return self.emit(("set_eol", v), "n", sets=("g", "eol", v), expect="0")
            return self.emit(("set_eol", v), "range", rej="!0")
        if k < .84:
            v = self.num()
            if v in ("0", "1"):
                return self.emit(("set_srcdiff_revision", v), "n", sets=("g", "sd", v), expect="0")
            return self.emit(("set_srcdiff_revision", v), "range", rej="!0")
        if k < .9:
            p, u = r.choice(["~", "'", "'p", "'src"]), r.choice(["~", q("urn:x"), q("urn:y"), q(SRC)])
            if "~" in (p, u):
                return self.emit(("register_namespace", p, u), "null", rej="!0")
            return self.emit(("register_namespace", p, u), "ns", ns=("g", p, u), expect="0")
        if k < .95:
            t, d = self.s(.3), self.s(.3)
            if "~" in (t, d):
                return self.emit(("set_processing_instruction", t, d), "null", rej="!0")
            return self.emit(("set_processing_instruction", t, d), "s", sets=("g", "pit", t), sets2=("pid", d), expect="0")
        op = r.choice(["get_namespace_prefix", "get_namespace_uri"])
        v = self.num()
        return self.emit((op, v), "range", same=True, **(dict(rej="~") if int(v) < 0 or int(v) > 60 else {}))

    def misc(self):
        op = self.r.choice([("memfree", "~"), ("tfree", "~"), ("srcml", "~", "~"), ("srcml", "'no-such", "~"), ("srcml", "~", "'out"), ("srcml", "'no-such", "'out")])
        if op[0] == "srcml":
            return self.emit(op, "null", rej="!0", same=True)
        return self.emit(op, "null", same=True)


def make(r, i, ctx):
    g = Gen(r, i)
    # repeated runs are compared for leaks: what lies in the global archive stays
    if g.c.leak:
        g.glob = False
    for _ in range(r.choice([10, 20, 40, 60])):
        g.step()
        # modes settle with what came back; the generator plans with "maybe"
    return g.c


def dump(l):
    d = {}
    for t in l.split(" ")[1:]:
        k, _, v = t.partition("=")
        d[k] = v
    return d


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    L = x.lines
    prev, gone, last = {}, set(), ''
    for st in c.meta["steps"]:
        op, res = st["op"], L[st["at"]]
        name = " ".join(op)[:200]

        def bad(kind, what):
            ctx.violation(kind + "-" + op[0], "%s: %s" % (name, what), [c])
        if any(l.startswith("!") for l in L[st["at"]:st["at"] + (2 if st.get("also") else 1)]):
            return bad("exception", res[:300])
        first = res.split(" ")[0]
        rej = st.get("rej")
        # a unit that was not read is a null unit
        if st.get("fresh") or st.get("clone"):
            o = st.get("fresh") or st["clone"][0]
            gone.discard(o)
            if first == "0" and (op[0] == "read" or len(op) > 2 and op[2] in gone):
                gone.add(o)
                st = dict(st, expect=None)
        nul = [o for o in op[1:] if o in gone]
        if nul and op[0] not in ("read", "ufree", "ucreate", "uclone"):
            st = dict(st, expect=None, empty=None, sets=None)
        if rej == "!0":
            if first in ("0", "."):
                return bad("accepted", "returned %s with these arguments in this state (%s)" % (res[:100], st["cls"]))
        elif rej is not None and first != rej:
            return bad("accepted", "returned %s, not %s, with these arguments in this state (%s)" % (res[:100], rej, st["cls"]))
        if st.get("expect") is not None and first != st["expect"]:
            return bad("refused", "returned %s for a valid call" % res[:100])
        if st.get("empty") is not None and first != st["empty"]:
            return bad("empty-unit", "returned %s for a unit with nothing in it" % res[:100])
        if st.get("idx") and int(op[3]) not in (0, 1, 100) and first != "0":
            return bad("range", "a unit for index %s" % op[3])
        ctx.seen((last, op[0], st["cls"], rej is not None, first if len(first) < 6 else "v"), rej is not None or st["cls"] not in ("s", "get"))
        last = op[0]
        cur = {}
        for o, k in st["d"].items():
            cur[o] = dump(L[k])
        ctx.tally("calls")
        ctx.tally("dumps", len(cur))
        if rej is not None:
            ctx.tally("calls_rejected")
        for o in cur:
            if o not in prev:
                if st.get("clone") and st["clone"][0] == o and st["clone"][1] in prev:
                    w = prev[st["clone"][1]]
                    keys = [k for k in cur[o] if k in w and cur[o][k] != w[k] and k not in ("hash", "loc")]
                    if keys:
                        return bad("clone", "a clone differs from the original: %s" % [(k, w[k], cur[o][k]) for k in keys])
                continue
            b, n = dict(prev[o]), cur[o]
            why = "a call that returned %s" % first
            if rej is not None:
                why = "a rejected call"
            elif st.get("rebase") == o:
                if first == "0":
                    continue
                why = "an open that failed"
            elif st.get("sets") and st["sets"][0] == o:
                f, v = st["sets"][1], st["sets"][2]
                b[f] = val(f, v)
                if st.get("sets2"):
                    b[st["sets2"][0]] = val("pid", st["sets2"][1])
            elif st.get("opt") and st["opt"][0] == o:
                _, how, v = st["opt"]
                k = int(b["opt"])
                k = v if "set_options" in how else k | v if "enable" in how else k & ~v
                b["opt"] = str(k)
                # what an option declares may be added to the namespaces
                b["ns"], b["nsl"] = n["ns"], n["nsl"]
                n = dict(n, opt=str(int(n["opt"]) & 127))
                b["opt"] = str(k & 127)
            elif st.get("ns") and st["ns"][0] == o:
                p, u = "'" + enc(st["ns"][1]), "'" + enc(st["ns"][2])
                l = [tuple(t.split("|")) for t in b["nsl"].split(",") if t]
                k = next((k for k, t in enumerate(l) if t[1] == u), None)
                if k is None:
                    l.append((p, u))
                else:
                    l[k] = (p, u)
                b["nsl"] = "".join("%s|%s," % t for t in l)
                b["ns"] = str(len(l))
                b["opt"] = n["opt"]
            elif o[0] == "u" and (st.get("lazy") or st.get("uany")):
                if st.get("uany") == o or "uany" not in st:
                    # content, and what is derived from it
                    more = ("file", "ver", "time") if op[0] == "apply" and op[3] == "~" else ()
                    for k in ("hash", "loc", "lang", "src", "rev") + more:
                        if op[0] in ("parse", "apply", "write_start_unit", "write_end_unit"):
                            b[k] = n[k]
            if b != n:
                ks = [k for k in n if n[k] != b.get(k)]
                return bad("state", "%s changed %s of %s" % (why, [(k, b.get(k), n[k]) for k in ks][:4], o) if not st.get("sets") or st["sets"][0] != o else "the state of %s is not as set: %s" % (o, [(k, b.get(k), n[k]) for k in ks][:4]))
        prev = cur
    if c.leak and x.fds:
        return ctx.violation("descriptors", "%s descriptors are left open" % x.fds, [c])
    if c.leak and x.alloc and min(x.alloc) > 0:
        return ctx.violation("leak", "each repetition keeps %s bytes" % (x.alloc,), [c])


def enc(t):
    return t[1:]


def val(f, v):
    if f in ("tab", "eol", "sd", "sol", "hash", "opt"):
        return str(int(v) if int(v) < 1 << 63 else int(v) - (1 << 64))
    return v


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(20000, 400000), make, judge, flavor="full", batch=20)
