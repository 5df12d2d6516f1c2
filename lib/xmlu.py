"""Independent reading of srcML documents: Python's expat (never libxml2, never srcML code)."""
import xml.parsers.expat as ex

SRC = "http://www.srcML.org/srcML/src"
CPP = "http://www.srcML.org/srcML/cpp"
ERR = "http://www.srcML.org/srcML/srcerr"
POS = "http://www.srcML.org/srcML/position"
OMP = "http://www.srcML.org/srcML/openmp"
DIFF = "http://www.srcML.org/srcDiff"


class Node:
    __slots__ = ("uri", "name", "prefix", "attrs", "kids", "decls", "line")

    def __init__(self, uri, name, prefix, attrs, decls):
        self.uri, self.name, self.prefix, self.attrs, self.decls = uri, name, prefix, attrs, decls
        self.kids = []

    def iter(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(k for k in reversed(n.kids) if isinstance(k, Node))

    def get(self, name, uri=""):
        return self.attrs.get((uri, name))


class Doc:
    def __init__(self):
        self.root = None
        self.decl = None       # (version, encoding, standalone)
        self.pis = []          # (target, data) before the root
        self.nodes = 0


class XmlError(Exception):
    pass


def split(n):
    p = n.split("\x01")
    if len(p) == 1:
        return "", p[0], None
    if len(p) == 2:
        return p[0], p[1], None
    return p[0], p[1], p[2]


def parse(data):
    """strict, namespace-aware parse into a tree; raises XmlError"""
    if isinstance(data, str):
        data = data.encode()
    d = Doc()
    p = ex.ParserCreate(namespace_separator="\x01")
    p.namespace_prefixes = True
    p.buffer_text = True
    p.buffer_size = 1 << 16
    st = []
    decls = []

    def start(n, a):
        nonlocal decls
        u, l, pr = split(n)
        at = {}
        for k, v in a.items():
            au, al, _ = split(k)
            if (au, al) in at:
                raise XmlError("duplicate attribute %s" % k)
            at[(au, al)] = v
        nd = Node(u, l, pr, at, decls)
        decls = []
        d.nodes += 1
        if st:
            st[-1].kids.append(nd)
        else:
            d.root = nd
        st.append(nd)

    def end(n):
        st.pop()

    def chars(s):
        if st:
            st[-1].kids.append(s)

    def nsd(prefix, uri):
        decls.append((prefix or "", uri or ""))

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.StartNamespaceDeclHandler = nsd
    p.XmlDeclHandler = lambda v, e, s: setattr(d, "decl", (v, e, s))
    p.ProcessingInstructionHandler = lambda t, x: d.pis.append((t, x)) if d.root is None else None
    try:
        p.Parse(data, True)
    except ex.ExpatError as e:
        raise XmlError(str(e))
    return d


def is_escape(n):
    return n.uri == SRC and n.name == "escape"


def text(n):
    """text content; an escape element counts as its one character"""
    out = []
    st = [n]
    while st:
        k = st.pop()
        if isinstance(k, str):
            out.append(k)
        elif is_escape(k):
            try:
                out.append(chr(int(k.get("char") or "", 16)))
            except ValueError:
                out.append("\ufffd<bad escape %r>" % k.get("char"))
        else:
            st.extend(reversed(k.kids))
    return "".join(out)


def units(root):
    """the unit elements of an archive; the root itself for a solitary unit"""
    k = [c for c in root.kids if isinstance(c, Node) and c.uri == SRC and c.name == "unit"]
    return k


def norm(s):
    """what the text of source s becomes: BOM dropped, CR and CRLF read as LF"""
    if s.startswith("\ufeff"):
        s = s[1:]
    return s.replace("\r\n", "\n").replace("\r", "\n")


def shape(n, pos=False):
    """canonical nested tuple, for comparing markup"""
    kids = []
    for k in n.kids:
        if isinstance(k, str):
            if kids and isinstance(kids[-1], str):
                kids[-1] += k
            else:
                kids.append(k)
        else:
            kids.append(shape(k, pos))
    at = tuple(sorted((u, l, v) for (u, l), v in n.attrs.items() if pos or u != POS))
    return (n.uri, n.name, at, tuple(kids))


def canon(n):
    """iterative canonical byte form of a subtree (infoset: names, attributes, text)"""
    out = []
    st = [(n, False)]
    while st:
        k, close = st.pop()
        if close:
            out.append("</>")
        elif isinstance(k, str):
            out.append(k.replace("&", "&amp;").replace("<", "&lt;"))
        else:
            out.append("<{%s}%s" % (k.uri, k.name))
            for (u, l), v in sorted(k.attrs.items()):
                out.append(" {%s}%s=%r" % (u, l, v))
            out.append(">")
            st.append((k, True))
            st.extend((c, False) for c in reversed(k.kids))
    return "".join(out)
