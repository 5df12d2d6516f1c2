"""Random programs together with the markup that the documented structure of srcML gives them.

A tree is (name, attributes, kids) with tokens as strings; `layout` gives the source text and `expected` the
canonical form to compare with (white space and comments are not part of it)."""
import re
import xmlu


def E(tag, *kids, **attrs):
    return (tag, attrs, [k for k in kids if k is not None and k != ()])


WORDS = ("alpha beta gamma delta count total index value1 node left right first second item key data buffer size len pos cur nextOne prev_one tmp2 res "
         "acc sum max1 min1 lo hi mid x1 y2 z3 aa bb cc dd ee i1 j1 k1 n1 m1 fooBar handler point width height").split()
TYPES = ("Thing Widget Shape Node2 Tree ListOf Account Parser Scanner Token Matrix Vec Engine Queue").split()
STD = {"C": ["int", "char", "long", "double", "float", "short"], "C++": ["int", "char", "long", "double", "bool", "float"], "Java": ["int", "long", "double", "boolean", "char", "byte"],
       "C#": ["int", "long", "double", "bool", "char", "string", "byte"]}
# keywords of one language are ordinary names in another
FREE = {"C": ["synchronized", "instanceof", "foreach", "lock", "checked", "finally", "package", "extends", "implements", "unsafe", "delegate"],
        "C++": ["synchronized", "lock", "checked", "package", "extends", "implements", "unsafe", "delegate", "instanceof", "byte", "finally"],
        "Java": ["foreach", "lock", "checked", "namespace", "template", "typename", "sizeof", "struct", "union", "delegate", "unsafe", "typedef", "extern", "inline", "friend"],
        "C#": ["synchronized", "package", "extends", "implements", "template", "typename", "union", "friend", "register", "instanceof"]}


class Grammar:
    def __init__(self, r, lang, free=False):
        self.r, self.lang, self.used = r, lang, {}
        self.words = WORDS + (FREE[lang] * 2 if free else [])

    def tally(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    # names and types
    def word(self):
        return self.r.choice(self.words)

    def name(self):
        return E("name", self.word())

    def tname(self):
        return E("name", self.r.choice(TYPES))

    def typ(self, depth=1):
        """kids of a type element"""
        r, l = self.r, self.lang
        k = r.random()
        if k < .6:
            t = E("name", r.choice(STD[l]))
        elif k < .85 or l == "C" or depth <= 0:
            t = self.tname()
        else:
            args = []
            for i in range(r.choice([1, 1, 2])):
                if i:
                    args.append(",")
                a = self.tname() if l == "Java" else E("name", r.choice(STD[l]))
                args.append(E("argument", a if l == "Java" else E("expr", a) if l == "C++" else a))
            t = E("name", self.tname(), E("argument_list", "<", *args, ">", type="generic"))
            self.tally("generic")
        return t

    def full(self, where):
        """specifiers, name and modifiers of a declared type"""
        r, l = self.r, self.lang
        out = []
        if l in ("C", "C++"):
            if where == "local" and r.random() < .15:
                out.append(E("specifier", "static"))
            if r.random() < .15:
                out.append(E("specifier", "const"))
        elif l == "Java":
            if where == "member":
                if r.random() < .6:
                    out.append(E("specifier", r.choice(["public", "private", "protected"])))
                if r.random() < .3:
                    out.append(E("specifier", "static"))
            if r.random() < .15:
                out.append(E("specifier", "final"))
        else:
            if where == "member":
                if r.random() < .6:
                    out.append(E("specifier", r.choice(["public", "private", "protected", "internal"])))
                if r.random() < .3:
                    out.append(E("specifier", r.choice(["static", "readonly"])))
            if where == "local" and r.random() < .1:
                out.append(E("specifier", "const"))
        if l == "C++" and r.random() < .12:
            self.tally("auto_or_reference")
            if r.random() < .5:
                return out + [E("name", "auto"), *r.choice([[E("modifier", "&")] if any("const" in x[2] for x in out) else [], [E("modifier", "&")], [E("modifier", "*")], [E("modifier", "&&")]])]
            if r.random() < .3:
                return out + [E("decltype", "decltype", E("argument_list", "(", E("argument", E("expr", *self.chain(0))), ")"))]
            return out + [self.typ(), E("modifier", r.choice(["&", "&&"]))]
        out.append(self.typ())
        if l in ("C", "C++"):
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                out.append(E("modifier", "*"))
        return out

    # expressions: lists of kids of an expr element
    def literal(self):
        r, l = self.r, self.lang
        k = r.randrange(5)
        if k == 0:
            return E("literal", r.choice(['"text"', '"a b; { c"', '""', '"/* no */"', '"// x"', '"it\'s"', '"\\"q\\""', '"if (a)"']), type="string")
        if k == 1:
            return E("literal", r.choice(["'c'", "'\\n'", "'\\''", "'\"'", "';'", "'{'"]), type="char")
        if k == 2 and l != "C":
            return E("literal", r.choice(["true", "false"]), type="boolean")
        if k == 3 and l != "C":
            return E("literal", "nullptr" if l == "C++" else "null", type="null")
        return E("literal", r.choice(["0", "1", "42", "0x1F", "1.5", "1e10", "007", "1L", "2.5f"]), type="number")

    def args(self, d):
        r = self.r
        a = []
        for i in range(r.choice([0, 1, 1, 2, 3])):
            if i:
                a.append(",")
            a.append(E("argument", E("expr", *self.expr(d - 1))))
        return E("argument_list", "(", *a, ")")

    def dotted(self, n=None):
        r = self.r
        w = []
        while len(w) < (n or r.choice([1, 1, 2])) + 1:
            x = self.word()
            if x not in w:
                w.append(x)        # a.a() looks like a constructor
        out = [E("name", w[0])]
        for x in w[1:]:
            out += [E("operator", r.choice([".", "->"]) if self.lang in ("C", "C++") else "."), E("name", x)]
        return E("name", *out)

    def call(self, d):
        self.tally("call")
        r = self.r
        if d > 0 and self.lang != "C" and not getattr(self, "inindex", 0) and r.random() < .04:
            self.tally("lambda_argument")
            A = lambda: E("argument", E("expr", *self.chain(1)))
            a = [A() for _ in range(r.choice([0, 0, 1]))] + [E("argument", E("expr", *(self.anonymous_class() if self.lang == "Java" and r.random() < .25 else self.lam())))] + [A() for _ in range(r.choice([0, 0, 1]))]
            return E("call", self.name(), E("argument_list", "(", *[x for i, y in enumerate(a) for x in ([",", y] if i else [y])], ")"))
        return E("call", self.name() if self.r.random() < .7 else self.dotted(), self.args(d))

    def extra(self, d):
        """kids of rarer operands"""
        r, l = self.r, self.lang
        self.tally("extra_operand")
        X = lambda e: E("expr", *e)
        k = r.randrange(7 if l == "C++" else 6)
        if k == 6:
            w = r.choice(["alignof", "typeid"])
            return [E(w, w, E("argument_list", "(", E("argument", X([E("name", r.choice(STD[l]))] if w == "alignof" else [self.name()])), ")"))]
        if k == 0:
            return [E("operator", "("), E("name", r.choice(STD[l])), E("operator", ")"), self.name()]
        if l == "C":
            return [E("sizeof", "sizeof", E("argument_list", "(", E("argument", X([E("name", r.choice(STD[l]))])), ")"))]
        if l == "C++":
            if k == 2:
                c = r.choice(["static", "dynamic", "const", "reinterpret"])
                return [E("cast", c + "_cast", E("argument_list", "<", E("argument", X([E("name", r.choice(STD[l]))])), ">", type="generic"), E("argument_list", "(", E("argument", X(self.chain(1))), ")"), type=c)]
            if k == 3:
                return [E("operator", "new"), E("name", E("name", r.choice(STD[l])), E("index", "[", X(self.chain(0)), "]"))]
            if k == 4:
                return [E("name", self.tname(), E("operator", "::"), self.name())]
            return [E("call", E("name", self.tname(), E("operator", "::"), self.name()), self.args(d))]
        if l == "Java":
            if k == 2:
                return [E("operator", "new"), E("name", E("name", r.choice(STD[l])), E("index", "[", X(self.chain(0)), "]"))]
            if k == 4:
                return [self.name(), E("operator", "instanceof"), self.tname()]
            return [E("name", E("name", "this"), E("operator", "."), self.name())]
        if k == 1:
            return [E("typeof", "typeof", E("argument_list", "(", E("argument", X([self.tname()])), ")"))]
        if k == 2:
            return [self.name(), E("operator", r.choice(["as", "is"])), self.tname()]
        if k == 4:
            return [E("literal", '@"a\\b"', type="string")]
        return [E("name", E("name", "this"), E("operator", "."), self.name())]

    def params_plain(self):
        r = self.r
        if r.random() < .4:
            return E("parameter_list", "(", ")")
        return E("parameter_list", "(", E("parameter", E("decl", E("type", E("name", r.choice(STD[self.lang]))), self.name())), ")")

    def primary(self, d):
        r = self.r
        if d > 0 and r.random() < .05:
            return self.extra(d)
        k = r.random()
        if k < .35 or d <= 0:
            return [self.name()]
        if k < .5:
            return [self.literal()]
        if k < .6:
            return [self.dotted()]
        if k < .7:
            self.tally("index")
            self.inindex = getattr(self, "inindex", 0) + 1
            x = self.expr(d - 1)
            self.inindex -= 1
            return [E("name", self.name(), E("index", "[", E("expr", *x), "]"))]
        if k < .85:
            return [self.call(d)]
        if k < .93:
            self.tally("parentheses")
            return [E("operator", "(")] + self.chain(d - 1) + [E("operator", ")")]
        if self.lang != "C" and k < .97:
            self.tally("new")
            return [E("operator", "new"), E("call", self.tname(), self.args(d))]
        if self.lang in ("C", "C++"):
            self.tally("sizeof")
            return [E("sizeof", "sizeof", E("argument_list", "(", E("argument", E("expr", self.name())), ")"))]
        return [self.literal()]

    OPS = ["+", "-", "*", "/", "%", "&&", "||", "==", "!=", "<=", ">=", "|", "^", "&"]

    def chain(self, d):
        """operands with operators between"""
        r = self.r
        out = []
        for i in range(r.choice([1, 1, 1, 2, 2, 3])):
            if i:
                out.append(E("operator", r.choice(self.OPS)))
            if r.random() < .12:
                out.append(E("operator", r.choice(["!", "-", "~"] if self.lang in ("C", "Java") else ["!", "-"])))
            out += self.primary(d)
        return out

    def whole(self, d):
        """an expression that stands alone, on the right of = """
        r, l = self.r, self.lang
        k = r.random()
        if k > .08:
            return self.expr(d)
        self.tally("whole")
        X = lambda e: E("expr", *e)
        if l == "C++" and k < .06:
            return self.lam()
        if l in ("Java", "C#") and .03 < k < .045:
            return [E("operator", "new"), E("name", E("name", r.choice(STD[l])), E("index", "[", "]")), E("block", "{", X([self.literal()]), ",", X([self.name()]), "}")]
        if l == "Java" and k < .03:
            return self.anonymous_class()
        if l == "C#" and k < .03:
            return [E("linq", E("from", "from", X([self.name()]), E("in", "in", X([self.name()]))), E("where", "where", X(self.chain(0))), E("select", "select", X([self.name()])))]
        if l in ("Java", "C#"):
            return self.lam()
        return [E("operator", r.choice(["*", "&"])), self.name()]

    def anonymous_class(self):
        return [E("operator", "new"), E("class", E("super", self.tname()), self.args(0), E("block", "{", *[self.function(1, "member") for _ in range(self.r.choice([0, 1]))], "}"))]

    def lam(self):
        r, l = self.r, self.lang
        if l == "C++":
            cap = r.choice([[], [E("argument", E("modifier", "="))], [E("argument", E("modifier", "&"))], [E("argument", self.name())], [E("argument", E("modifier", "&")), ",", E("argument", self.name())]])
            return [E("lambda", E("capture", "[", *cap, "]"), self.params_plain(), self.lambdablock())]
        arrow = "->" if l == "Java" else "=>"
        P = lambda: E("parameter", E("decl", self.name()))
        if r.random() < .5:
            return [E("lambda", E("parameter_list", "(", P(), ",", P(), ")"), arrow, self.lambdablock())]
        return [E("lambda", E("parameter_list", P(), type="pseudo"), arrow, E("block", E("block_content", E("expr", *self.chain(0))), type="pseudo"))]

    def lambdablock(self):
        if self.r.random() < .5:
            return E("block", "{", E("block_content", E("return", "return", E("expr", *self.chain(1)), ";")), "}")
        return E("block", "{", E("block_content", *[k for _ in range(self.r.choice([0, 1, 2])) for k in (self.simple(1) if self.r.random() < .5 else self.stmt(1))]), "}")

    def expr(self, d):
        r = self.r
        if d > 0 and r.random() < .06:
            self.tally("ternary")
            return [E("ternary", E("condition", E("expr", *self.chain(d - 1)), "?"), E("then", E("expr", *self.chain(d - 1))), E("else", ":", E("expr", *self.chain(d - 1))))]
        return self.chain(d)

    def cond(self, d=2):
        r = self.r
        if r.random() < .3:
            c = [self.name(), E("operator", r.choice(["<", ">"])), r.choice([lambda: E("literal", "10", type="number"), self.name])()]
        else:
            c = self.chain(d)
        return E("condition", "(", E("expr", *c), ")")

    def assign(self, d):
        r = self.r
        k = r.random()
        if k < .6:
            lhs = self.primary_lhs(d)
            return [lhs, E("operator", r.choice(["=", "=", "=", "+=", "-=", "*=", "|="]))] + self.whole(d)
        if k < .85:
            return [self.call(d)]
        if k < .95:
            return [self.name(), E("operator", r.choice(["++", "--"]))]
        return [E("operator", r.choice(["++", "--"])), self.name()]

    def primary_lhs(self, d):
        r = self.r
        k = r.random()
        if k < .6:
            return self.name()
        if k < .8:
            return self.dotted()
        return E("name", self.name(), E("index", "[", E("expr", *self.expr(0)), "]"))

    # declarations
    def declarator(self, d, array=True, last=True):
        r = self.r
        n = self.name()
        if array and self.lang in ("C", "C++") and r.random() < .15:
            n = E("name", n, E("index", "[", E("expr", E("literal", "8", type="number")), "]"))
        if r.random() < .5:
            if d and array and last and r.random() < .06:
                self.tally("initializer_list")
                return [n, E("init", "=", E("expr", E("block", "{", E("expr", *self.chain(0)), ",", E("expr", self.literal()), "}")))]
            return [n, E("init", "=", E("expr", *(self.whole(d) if last else self.expr(d))))]
        return [n]

    def decl_stmt(self, where, d=2):
        r = self.r
        self.tally("decl_stmt")
        t = self.full(where)
        n = r.choice([0, 0, 0, 0, 1, 2])
        kids = [E("decl", E("type", *t), *self.declarator(d, last=n == 0))]
        for _ in range(n):
            m = [E("modifier", "*")] if self.lang in ("C", "C++") and r.random() < .3 else []
            kids += [",", E("decl", E("type", *m, ref="prev"), *self.declarator(d, last=False))]
        return E("decl_stmt", *kids, ";")

    def params(self):
        r = self.r
        out = []
        for i in range(r.choice([0, 0, 1, 2, 3])):
            if i:
                out.append(",")
            m = []
            if self.lang == "C#" and r.random() < .15:
                m = [E("modifier", r.choice(["ref", "out"]))]
            t = m + self.full("param")
            if self.lang == "C++" and r.random() < .2:
                t.append(E("modifier", "&"))
            kids = [E("type", *t), self.name()]
            if self.lang == "C++" and r.random() < .1:
                kids.append(E("init", "=", E("expr", self.literal())))
            out.append(E("parameter", E("decl", *kids)))
        return E("parameter_list", "(", *out, ")")

    # statements
    def block(self, d, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3])
        s = [self.stmt(d - 1, i, n) for i in range(n)]
        return E("block", "{", E("block_content", *[k for x in s for k in x]), "}")

    def body(self, d, closed=False):
        """block, or one statement (closed: an else follows it, that must not belong to the statement)"""
        if self.r.random() < .7:
            return self.block(d)
        self.tally("pseudo_block")
        s = self.nested(d - 1, closed) if d > 0 and self.r.random() < .5 else self.simple(d)
        return E("block", E("block_content", *s), type="pseudo")

    def nested(self, d, closed):
        """a control statement that is the body of another without a block"""
        r = self.r
        self.tally("nested_control")
        k = r.random()
        if k < .5:
            return [self.ifstmt(d, closed)]
        if k < .65:
            return [E("while", "while", self.cond(), self.body(d, closed))]
        if k < .75:
            return [self.forstmt(d, closed)]
        if k < .8:
            return [self.switch(d)]
        if k < .85 and self.lang != "C":
            return [self.trystmt(d)]
        if k < .9:
            return [E("do", "do", self.body(d, True), "while", self.cond(), ";")]
        return [self.special(d, closed)]

    def ifstmt(self, d, closed=False):
        r = self.r
        self.tally("if")
        n = 0
        while r.random() < .25:
            n += 1
        last = closed or r.random() < .45
        kids = [E("if", "if", self.cond(), self.body(d, closed or n > 0 or last))]
        for j in range(n):
            self.tally("elseif")
            kids.append(E("if", "else", "if", self.cond(), self.body(d, closed or j < n - 1 or last), type="elseif"))
        if last:
            self.tally("else")
            b = self.body(d, closed)
            # an if right after the else is an else if
            while b[1].get("type") == "pseudo" and b[2][0][2][0][0] == "if_stmt":
                b = self.body(d, closed)
            kids.append(E("else", "else", b))
        return E("if_stmt", *kids)

    def forstmt(self, d, closed=False):
        r = self.r
        self.tally("for")
        w = r.random()
        if w < .5:
            init = E("init", E("decl", E("type", E("name", r.choice(["int", "long"]))), self.name(), E("init", "=", E("expr", *self.chain(1)))), ";")
        elif w < .8:
            init = E("init", E("expr", self.name(), E("operator", "="), *self.chain(1)), ";")
        else:
            init = E("init", ";")
        c = E("condition", E("expr", self.name(), E("operator", r.choice(["<", "!=", "<="])), *self.primary(1)), ";") if r.random() < .8 else E("condition", ";")
        inc = E("incr", E("expr", *r.choice([[E("operator", "++"), self.name()], [self.name(), E("operator", "++")], [self.name(), E("operator", "+=")] + self.chain(1)]))) if r.random() < .8 else E("incr")
        return E("for", "for", E("control", "(", init, c, inc, ")"), self.body(d, closed))

    def switch(self, d):
        r, l = self.r, self.lang
        self.tally("switch")
        kids = []
        for _ in range(r.choice([1, 2, 3])):
            kids.append(E("case", "case", E("expr", self.literal() if r.random() < .7 else self.name()), ":"))
            for _ in range(r.choice([0, 1, 2])):
                kids += self.simple(d) if d < 1 or r.random() < .6 else self.stmt(d - 1)
        if r.random() < .6:
            kids.append(E("default", "default", ":"))
            kids += self.simple(d) if d < 1 or r.random() < .6 else self.stmt(d - 1)
        return E("switch", "switch", self.cond(), E("block", "{", E("block_content", *kids), "}"))

    def trystmt(self, d):
        r, l = self.r, self.lang
        self.tally("try")
        kids = ["try", self.block(d)]
        for _ in range(r.choice([1, 1, 2])):
            kids.append(E("catch", "catch", E("parameter_list", "(", E("parameter", E("decl", E("type", self.tname()), self.name())), ")"), self.block(d)))
        if l != "C++" and r.random() < .4:
            kids.append(E("finally", "finally", self.block(d)))
        return E("try", *kids)

    def simple(self, d):
        r = self.r
        k = r.random()
        if k < .6:
            self.tally("expr_stmt")
            return [E("expr_stmt", E("expr", *self.assign(2)), ";")]
        if k < .8:
            self.tally("return")
            return [E("return", "return", E("expr", *self.expr(2)) if r.random() < .8 else None, ";")]
        if k < .86:
            return [E("break", "break", ";")]
        if k < .9:
            return [E("continue", "continue", ";")]
        if k < .94 and self.lang != "C":
            self.tally("throw")
            return [E("throw", "throw", E("expr", E("operator", "new"), E("call", self.tname(), self.args(1))), ";")]
        if k < .97:
            return [E("empty_stmt", ";")]
        return [E("expr_stmt", E("expr", self.call(2)), ";")]

    def stmt(self, d, at=0, of=1):
        """a list: a label comes with the statement it labels"""
        r, l = self.r, self.lang
        k = r.random()
        if d <= 0 or k < .33:
            return self.simple(d)
        if k < .48:
            return [self.decl_stmt("local")]
        if k < .63:
            return [self.ifstmt(d)]
        if k < .70:
            self.tally("while")
            return [E("while", "while", self.cond(), self.body(d))]
        if k < .77:
            return [self.forstmt(d)]
        if k < .81:
            self.tally("do")
            return [E("do", "do", self.block(d), "while", self.cond(), ";")]
        if k < .86:
            return [self.switch(d)]
        if k < .89:
            self.tally("block")
            return [self.block(d)]
        if k < .91 and l in ("C", "C++"):
            self.tally("goto")
            return [E("label", self.name(), ":")] + self.simple(d) + [E("goto", "goto", self.name(), ";")]
        if k < .93 and l != "C":
            return [self.trystmt(d)]
        if k < .96:
            return [self.special(d)]
        return self.simple(d)

    def special(self, d, closed=False):
        r, l = self.r, self.lang
        self.tally("special")
        if l in ("C++", "Java") and r.random() < .2:
            return E("throw", "throw", E("expr", self.name()), ";")
        if l == "C++" and r.random() < .5:
            k = r.randrange(4)
            if k == 3:
                return E("assert", "static_assert", E("argument_list", "(", E("argument", E("expr", *self.chain(1))), ",", E("argument", E("expr", E("literal", '"text"', type="string"))), ")"), ";", type="static")
            dc = E("condition", "(", E("decl", E("type", E("name", r.choice(STD[l]))), self.name(), E("init", "=", E("expr", self.call(1)))), ")")
            if k == 0:
                return E("while", "while", dc, self.body(d, closed))
            if k == 1 and not closed:
                return E("if_stmt", E("if", "if", dc, self.block(d)))
            return E("expr_stmt", E("expr", E("operator", "delete"), *([E("index", "[", "]")] if r.random() < .4 else []), self.name()), ";")
        if l == "C++" :
            return E("for", "for", E("control", "(", E("init", E("decl", E("type", E("name", r.choice(["auto", "int", "T"])), *r.choice([[], [E("modifier", "&")], [E("modifier", "*")]])), self.name(), E("range", ":", E("expr", *self.primary(1))))), ")"), self.body(d, closed))
        if l == "Java":
            if r.random() < .5:
                return E("synchronized", "synchronized", E("init", "(", E("expr", *self.primary(0)), ")"), self.block(d))
            if r.random() < .5:
                return E("assert", "assert", E("expr", *self.chain(1)), ";")
            return E("for", "for", E("control", "(", E("init", E("decl", E("type", self.tname()), self.name(), E("range", ":", E("expr", *self.primary(1))))), ")"), self.body(d, closed))
        if l == "C#":
            k = r.randrange(5)
            if k == 0:
                return E("foreach", "foreach", E("control", "(", E("init", E("decl", E("type", E("name", "var")), self.name(), E("range", "in", E("expr", *self.primary(1))))), ")"), self.body(d, closed))
            if k == 1:
                return E("lock", "lock", E("init", "(", E("expr", *self.primary(0)), ")"), self.block(d))
            if k == 2:
                return E("using_stmt", "using", E("init", "(", E("decl", E("type", self.tname()), self.name(), E("init", "=", E("expr", *self.expr(1)))), ")"), self.block(d))
            if k == 3:
                return E("checked", "checked", self.block(d))
            return E("unsafe", "unsafe", self.block(d))
        return E("do", "do", self.block(d), "while", self.cond(), ";")

    def function(self, d, where):
        r, l = self.r, self.lang
        self.tally("function")
        t = self.full(where) if r.random() < .6 else [E("name", "void")]
        if r.random() < .15 and (l in ("C", "C++")):
            self.tally("function_decl")
            return E("function_decl", E("type", *t), self.name(), self.params(), ";")
        kids = [E("type", *t), self.name(), self.params()]
        if l == "C++" and r.random() < .15:
            self.tally("function_tail")
            k = r.randrange(4 if where == "member" else 2)
            if k == 0:
                kids.append(E("noexcept", "noexcept"))
            elif k == 1:
                kids = [E("type", E("name", "auto")), *kids[1:], "->", E("type", E("name", r.choice(STD[l])))]
            elif k == 2:
                kids.append(E("specifier", r.choice(["override", "final"])))
            else:
                return E("function_decl", *kids, "=", E("specifier", "delete"), ";")
        if l == "Java" and r.random() < .1:
            kids.append(E("throws", "throws", E("argument", E("expr", self.tname()))))
        return E("function", *kids, self.block(d, r.choice([0, 1, 2, 3, 5])))

    def rare_member(self, d, cname, kind):
        r, l = self.r, self.lang
        self.tally("rare_member")
        spec = [E("specifier", "public")] if l != "C++" and r.random() < .5 else []
        n = E("name", cname)
        b = lambda: self.block(1)
        k = r.randrange(6)
        if k < 2:
            kids = spec + [n, self.params()]
            if l == "C++" and r.random() < .4:
                kids.append(E("member_init_list", ":", E("call", self.name(), self.args(0)), *([",", E("call", self.name(), self.args(0))] if r.random() < .5 else [])))
            elif l == "C#" and r.random() < .3:
                kids.append(E("member_init_list", ":", E("call", E("name", r.choice(["base", "this"])), self.args(0))))
            elif l == "C++" and r.random() < .3:
                return E("constructor_decl", *kids, ";")
            return E("constructor", *kids, b())
        if l == "C++" and r.random() < .2:
            if r.random() < .5:
                return E("friend", "friend", E("class_decl", "class", self.tname(), ";"))
            return E("function_decl", E("name", "operator", E("name", "int")), E("parameter_list", "(", ")"), E("specifier", "const"), ";", type="operator")
        if l == "C++":
            t = self.full("param")
            if k == 2:
                return E("destructor", E("name", "~" + cname), E("parameter_list", "(", ")"), b())
            if k == 3:
                return E("function_decl", E("type", E("specifier", "virtual"), *t), self.name(), self.params(), *r.choice([[E("specifier", "const")], []]), "=", E("literal", "0", type="number"), ";")
            if k == 4:
                return E("function", E("type", *t), self.name(), self.params(), E("specifier", "const"), b())
            return E("function", E("type", n, E("modifier", "&")), E("name", "operator", E("name", r.choice(["+=", "=", "==", "+", "<<"]))), self.params(), b(), type="operator")
        if l == "Java":
            if k == 2:
                return E("static", "static", b())
            if k == 3:
                return E("function_decl", E("type", E("specifier", "abstract"), E("name", "void")), self.name(), self.params(), ";")
            a = E("annotation", "@", E("name", r.choice(["Override", "Deprecated", "Test"])), *([E("argument_list", "(", E("argument", E("expr", self.name(), E("operator", "="), self.literal())), ")")] if r.random() < .3 else []))
            if k == 4:
                return E("function", a, E("type", *self.full("member")), self.name(), self.params(), b())
            return E("decl_stmt", E("decl", a, E("type", *self.full("member")), *self.declarator(1)), ";")
        if k == 2:
            return E("destructor", E("name", "~" + cname), E("parameter_list", "(", ")"), b())
        if k == 3:
            acc = r.choice([[E("function_decl", E("name", "get"), ";"), E("function_decl", E("name", "set"), ";")], [E("function", E("name", "get"), b()), E("function", E("name", "set"), b())], [E("function", E("name", "get"), b())]])
            return E("property", E("type", *spec, E("name", r.choice(STD[l]))), self.name(), E("block", "{", *acc, "}"))
        if k == 4:
            return E("function", E("attribute", "[", E("expr", E("name", "Test")), "]"), E("type", *spec, E("name", "void")), self.name(), self.params(), b())
        return E("delegate", *spec, "delegate", E("type", E("name", "void")), self.name(), self.params(), ";")

    def rare_top(self, d):
        r, l = self.r, self.lang
        self.tally("rare_top")
        T = self.tname
        if l == "C":
            k = r.randrange(3)
            if k == 0:
                return E("struct_decl", "struct", T(), ";")
            if k == 1:
                return E("typedef", "typedef", E("type", E("struct", "struct", T(), E("block", "{", self.decl_stmt("member", 0), "}"))), T(), ";")
            return E("decl_stmt", E("decl", E("type", E("specifier", "extern"), *self.full("top")), self.name()), ";")
        if l == "C++":
            k = r.randrange(8)
            if k == 7:
                n = T()
                return E("destructor", E("name", n, E("operator", "::"), E("name", "~" + n[2][0])), E("parameter_list", "(", ")"), self.block(d))
            tp = E("parameter", E("type", E("name", r.choice(["class", "typename"]))), E("name", "T"))
            tm = E("template", "template", E("parameter_list", "<", tp, *([",", E("parameter", E("type", E("name", "int")), E("name", "N"))] if r.random() < .4 else []), ">"))
            if k == 0:
                f = self.function(d, "param")
                return E("function" if f[0] == "function" else f[0], tm, *f[2])
            if k == 1:
                return E("class", tm, "class", T(), E("block", "{", E("private", self.decl_stmt("member", 0), type="default"), "}"), ";")
            if k == 2:
                n = T()
                return E("constructor", E("name", n, E("operator", "::"), n), self.params(), *([E("member_init_list", ":", E("call", self.name(), self.args(0)))] if r.random() < .5 else []), self.block(d))
            if k == 3:
                return E("function", E("type", E("name", "void")), E("name", T(), E("operator", "::"), self.name()), self.params(), *([E("specifier", "const")] if r.random() < .4 else []), self.block(d))
            if k == 4:
                return E("extern", "extern", E("literal", '"C"', type="string"), E("block", "{", E("block_content", self.decl_stmt("top", 0)), "}"))
            if k == 5:
                return E("using", "using", T(), E("init", "=", E("type", E("name", r.choice(STD[l])))), ";")
            return E("enum", "enum", "class", T(), E("block", "{", E("decl", self.name()), ",", E("decl", self.name()), "}"), ";", type="class")
        if l == "Java":
            if r.random() < .5:
                return E("class", "class", E("name", T(), E("parameter_list", "<", E("parameter", E("name", "T")), ">")), E("super_list", E("extends", "extends", E("super", T())), E("implements", "implements", E("super", T()), ",", E("super", T()))), E("block", "{", self.decl_stmt("member", 1), "}"))
            return E("package", "package", self.dotted(), ";")
        if r.random() < .5:
            return E("class", E("specifier", "partial"), "class", E("name", T(), E("argument_list", "<", E("argument", E("name", "T")), ">", type="generic")), E("where", "where", E("name", "T"), ":", E("constraint", T())), E("block", "{", self.decl_stmt("member", 1), "}"))
        return E("using", "using", T(), E("init", "=", E("expr", self.dotted(1))), ";")

    def cls(self, d):
        r, l = self.r, self.lang
        self.tally("class")
        name = self.tname()
        kind = {"C": "struct", "C++": r.choice(["class", "class", "struct", "union"]), "Java": r.choice(["class", "class", "interface"]), "C#": r.choice(["class", "class", "struct", "interface"])}[l]
        kids = []
        if l in ("Java", "C#") and r.random() < .4:
            kids.append(E("specifier", r.choice(["public", "abstract"])))
        kids += [kind, name]
        if l == "C++" and kind != "union" and r.random() < .3:
            kids.append(E("super_list", ":", E("super", E("specifier", "public"), self.tname())))
        elif l == "Java" and kind == "class" and r.random() < .3:
            kids.append(E("super_list", E("extends", "extends", E("super", self.tname()))))
        elif l == "C#" and r.random() < .3:
            kids.append(E("super_list", ":", E("super", self.tname())))

        def member():
            k = r.random()
            if kind == "interface":
                return E("function_decl", E("type", E("name", r.choice(STD[l]))), self.name(), self.params(), ";")
            if l == "C" or k < .34:
                return self.decl_stmt("member", 1)
            if k < .45:
                return self.rare_member(d, name[2][0], kind)
            if k < .85:
                return self.function(d - 1, "member")
            if d > 1:
                return self.cls(d - 1)
            return self.decl_stmt("member", 1)
        if l == "C++" or l == "C":
            default = "private" if kind == "class" else "public"
            sections = []
            first = [member() for _ in range(r.choice([0, 1, 2]))]
            if l == "C":
                sections += first
            else:
                sections.append(E(default, *first, type="default"))
            if l == "C++":
                for _ in range(r.choice([0, 0, 1, 2])):
                    s = r.choice(["public", "private", "protected"])
                    sections.append(E(s, s, ":", *[member() for _ in range(r.choice([0, 1, 2, 3]))]))
            kids += [E("block", "{", *sections, "}"), ";"]
        else:
            kids.append(E("block", "{", *[member() for _ in range(r.choice([0, 1, 2, 4]))], "}"))
        return E(kind, *kids)

    def enum(self):
        r = self.r
        self.tally("enum")
        kids = []
        for i in range(r.choice([1, 2, 3])):
            if i:
                kids.append(",")
            kids.append(E("decl", self.name(), E("init", "=", E("expr", E("literal", str(i), type="number"))) if self.lang != "Java" and r.random() < .4 else None))
        return E("enum", "enum", self.tname(), E("block", "{", *kids, "}"), ";" if self.lang in ("C", "C++") else None)

    def top(self, d):
        r, l = self.r, self.lang
        k = r.random()
        if k < .12 and l in ("C++", "C#"):
            self.tally("namespace")
            return E("namespace", "namespace", self.name(), E("block", "{", *[self.top(d - 1) for _ in range(r.choice([0, 1, 2]))], "}")) if d > 0 else self.function(1, "top")
        if k < .4:
            return self.cls(d)
        if k < .48:
            return self.enum()
        if k < .6 and l in ("C", "C++"):
            return self.decl_stmt("top", 1)
        if k < .65 and l == "C++":
            self.tally("using")
            return E("using", "using", E("namespace", "namespace", self.name(), ";"))
        if k < .65 and l == "C#":
            self.tally("using")
            return E("using", "using", self.dotted(1), ";")
        if k < .65 and l == "Java":
            self.tally("import")
            return E("import", "import", self.dotted(), ";")
        if .7 < k < .78:
            return self.rare_top(d)
        if k < .7 and l in ("C", "C++"):
            self.tally("typedef")
            return E("typedef", "typedef", E("type", E("name", r.choice(STD[l]))), self.name(), ";")
        return self.function(d, "top")

    def program(self, d=3):
        return E("unit", *[self.top(d) for _ in range(self.r.choice([1, 1, 2, 3]))])


STMT = set("expr_stmt decl_stmt if_stmt while for do switch case default return break continue throw empty_stmt label goto try block function function_decl class struct union interface enum namespace using import "
           "typedef constructor destructor property delegate static extern package struct_decl constructor_decl foreach lock using_stmt checked unsafe synchronized assert".split())


def tokens(t):
    """(token, number of the list of statements it begins a statement of, or 0)"""
    out = []
    num = [0]

    def go(n, begin):
        b = begin
        num[0] += 1
        here = num[0]
        listed = n[0] in ("unit", "block_content", "public", "private", "protected", "block") and n[1].get("type") != "pseudo"
        for k in n[2]:
            if isinstance(k, str):
                out.append((k, b))
            else:
                # a directive may stand before a complete statement of a block
                go(k, here if listed and k[0] in STMT and k[2] != [] else b)
            b = 0
    go(t, 0)
    return out


def canon(t):
    """canonical form of an expected tree"""
    o = []

    def go(n):
        if n[1].get("type") == "default" and not n[2]:
            return
        o.append("<" + n[0] + "".join(" %s=%s" % x for x in sorted(n[1].items())) + ">")
        for k in n[2]:
            if isinstance(k, str):
                o.append("".join(k.split()))
            else:
                go(k)
        o.append("</>")
    go(t)
    return "".join(o)


def actual(n, top=True):
    """canonical form of markup: without white space, comments and directives"""
    o = []

    def go(n):
        o.append("<" + n.name + "".join(" %s=%s" % (l, v) for (u, l), v in sorted(n.attrs.items()) if not u) + ">")
        for k in n.kids:
            if isinstance(k, str):
                o.append("".join(k.split()))
            elif k.name == "comment" or k.uri == xmlu.CPP:
                pass
            else:
                go(k)
        o.append("</>")
    go(n)
    # a section before the first access specifier is there when there is anything in it, if only white space
    return re.sub("<(public|private) type=default></>", "", "".join(o))


WORDY = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def layout(r, toks, style, cpp, alternatives=False):
    """source text of tokens: one of several layouts, with comments and (before statements) directives if asked for"""
    out = []
    prev = ""
    level = None
    other = False
    for t, free in toks:
        need = (prev[-1:] in WORDY and t[0] in WORDY) or not (prev in list("(){}[];,") or t in list("(){}[];,"))
        if not prev:
            need = False
        if style == "tight":
            w = " " if need else ""
        elif style == "line":
            w = "\n" if prev in (";", "{", "}") else " "
        else:
            k = r.random()
            w = r.choice([" ", " ", "  ", "\t", "\n", "\n\n", " \n\t"]) if need or k < .4 else ""
            if style == "comments" and r.random() < .08:
                w = (w or (" " if prev[-1:] in "/*" else "")) + r.choice([" /* c */ ", "/**/", " // x\n", "\n// int a; {\n", "/* if ( */", " /* a\n * b\n */\n"])
        if free and cpp and prev in ("", ";", "{", "}", ":"):
            k = r.random()
            if level is not None and free == level:
                if k < .5:
                    w += "\n#endif\n"
                    level = None
                elif k < .75 and alternatives and not other:
                    other = r.random() < .6
                    w += "\n#else\n" if other else "\n#elif B == 1\n"
            elif k < .06:
                w += "\n" + r.choice(cpp) + "\n"
            elif k < .14 and level is None:
                w += "\n" + r.choice(["#if A > 1", "#ifdef A", "#ifndef A_H"]) + "\n"
                level, other = free, False
        out.append(w)
        out.append(t)
        prev = t
    return "".join(out) + ("\n#endif" if level is not None else "") + ("\n" if level is not None or r.random() < .8 else "")
