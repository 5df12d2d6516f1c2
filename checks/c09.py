"""C09: position markup is correct and changes nothing else."""
import bisect
import re
import gen, xmlu
from vrun import Case, q, unq

RULE = ("each source is parsed with and without the position option under the same other options, language and tab stop; the markup without pos attributes must be "
        "equal, and every pos:start/pos:end is recomputed from the text between the tags (lines, tabs, columns); parents must enclose children; "
        "non-trivial: at least one positioned element, counted as distinct (source, tab stop)")


SKIP = " \t\n\r\f\v\\"


def make(r, i, ctx):
    lang = r.choice(gen.LANGS)
    k = r.random()
    clean = k < .7
    t = gen.program(r, lang) if clean else gen.anytext(r, lang)
    while len(t) > 9000:
        t = gen.anytext(r, lang)
    if r.random() < .5:
        t = tabs(r, t)
    t = t.replace("\ufffe", "").replace("\uffff", "").lstrip("\ufeff")
    tab = r.choice([8, 8, 1, 2, 3, 4, 5, 8, 10, 16, 33])
    opt = gen.options(r) & ~4
    c = Case("c" + i, clean=clean and "#" not in t, text=t, lang=lang, tab=tab, opt=opt)
    for a in (0, 1):
        c.add("acreate a%d" % a).add("archive_enable_option a%d" % a, opt | (4 if a else 0)).add("archive_set_tabstop a%d" % a, tab)
        c.add("wopen a%d mem m%d" % (a, a))
        c.add("ucreate u%d a%d" % (a, a)).add("unit_set_language u%d" % a, q(lang)).add("unit_set_src_encoding u%d 'UTF-8" % a)
        c.add("parse u%d mem %s" % (a, q(t)))
        c.add("archive_write_unit a%d u%d" % (a, a))
        c.add("archive_close a%d" % a)
        c.add("mem m%d" % a)
    return c


def tabs(r, t):
    out = []
    for ch in t:
        if ch == " " and r.random() < .4:
            ch = r.choice(["\t", " \t", "\t\t"])
        out.append(ch)
    return "".join(out)


def advance(line, col, s, tab):
    for ch in s:
        if ch == "\n":
            line, col = line + 1, 1
        elif ch == "\t":
            col = ((col - 1) // tab + 1) * tab + 1
        else:
            col += len(ch.encode("utf-8", "surrogatepass"))
    return line, col


def judge(ctx, c, x):
    if ctx.crash(c, x):
        return
    L, M = x.lines, c.meta
    raw = [unq(L[10]), unq(L[21])]

    def bad(kind, what):
        ctx.violation(kind, what + "\nlanguage %s tab %d options %d source %r" % (M["lang"], M["tab"], M["opt"], M["text"][:1500]), [c])

    try:
        d0, d1 = xmlu.parse(raw[0]), xmlu.parse(raw[1])
    except (xmlu.XmlError, TypeError) as e:
        return bad("not-well-formed", "%s" % e)
    r1 = d1.root
    if r1.get("tabs", xmlu.POS) != str(M["tab"]):
        return bad("tabs", "%r" % r1.get("tabs", xmlu.POS))
    u0, u1 = xmlu.units(d0.root)[0], xmlu.units(r1)[0]
    st = [(u1, False)]
    line, col = 1, 1
    tab = M["tab"]
    todo, flags, skip = [], [], 0
    pend = []         # open elements: [node, first position, last position]
    n = 0
    while st:
        k, close = st.pop()
        if close:
            node, first, last = pend.pop()
            if node.name == "comment" or node.uri == xmlu.CPP:
                skip -= 1
            s, e = node.get("start", xmlu.POS), node.get("end", xmlu.POS)
            if node is not u1:
                todo.append((node, first, last, s, e))
            if pend and last:
                pend[-1][1] = pend[-1][1] or first
                pend[-1][2] = last
            continue
        if isinstance(k, str) or xmlu.is_escape(k):
            s = k if isinstance(k, str) else xmlu.text(k)
            if not s:
                continue
            flags.append(s if not skip and isinstance(k, str) else " " * len(s))
            first = (line, col)
            line, col = advance(line, col, s[:-1], tab)
            last = (line, col + len(s[-1].encode('utf-8', 'surrogatepass')) - 1)
            line, col = advance(line, col, s[-1], tab)
            pend[-1][1] = pend[-1][1] or first
            pend[-1][2] = last
            continue
        pend.append([k, None, None])
        if k.name == "comment" or k.uri == xmlu.CPP:
            skip += 1
        st.append((k, True))
        st.extend((z, False) for z in reversed(k.kids))
    M["text2"] = "".join(flags)
    norm = M["text"].replace("\r\n", "\n").replace("\r", "\n")
    if len(M["text2"]) != len(norm):
        ctx.tally("text_differs")
        return
    # text that the lexer passes over unseen: conditionally excluded, inline assembly
    M["norm2"] = M["text2"] if not re.search(r"#\s*(if|el)|__asm", norm) else " " * len(norm)
    for z in todo:
        n += check(ctx, bad, M, *z)
    ctx.tally("positions", n)
    ctx.sample({"source": M["text"][:200], "tab": M["tab"], "positions": n})
    n += repeated(ctx, bad, u1)
    # nothing else changes
    for node in u1.iter():
        for a in ("start", "end", "tabs"):
            node.attrs.pop((xmlu.POS, a), None)
    if xmlu.canon(u0) != xmlu.canon(u1):
        p1, p2 = xmlu.canon(u0), xmlu.canon(u1)
        k = next((k for k in range(min(len(p1), len(p2))) if p1[k] != p2[k]), 0)
        return bad("other-markup", "without: %r, with: %r" % (p1[max(0, k - 60):k + 200], p2[max(0, k - 60):k + 200]))
    ctx.seen((M["text"], M["tab"]), n > 0)


def repeated(ctx, bad, unit):
    """a repeated type has the position of the type it repeats"""
    n = 0
    for d in unit.iter():
        types = [t for k in d.kids if isinstance(k, xmlu.Node) and k.name == "decl" for t in k.kids if isinstance(t, xmlu.Node) and t.name == "type"]
        types = [k for k in d.kids if isinstance(k, xmlu.Node) and k.name == "type"] + types
        of = None
        for t in types:
            if t.get("ref") != "prev":
                of = t
                continue
            if of is None:
                ctx.tally("ref_prev_alone")
                continue
            n += 1
            for a in ("start", "end"):
                if t.get(a, xmlu.POS) != of.get(a, xmlu.POS):
                    bad("repeated-type", "the %s of a repeated type is %s, that of the type %s: %r" % (a, t.get(a, xmlu.POS), of.get(a, xmlu.POS), xmlu.text(d)[:200]))
    ctx.tally("repeated_types", n)
    return n


def index(M, pos):
    """of the character of the source that a position denotes; column 0 is the line end before"""
    where = M.get("where")
    if where is None:
        where = M["where"] = {}
        line = col = 1
        t = M["norm"] = M["text"].replace("\r\n", "\n").replace("\r", "\n")
        for k, ch in enumerate(t):
            where.setdefault(line, []).append((col, k))
            line, col = advance(line, col, ch, M["tab"])
        where.setdefault(line, []).append((col, len(t)))
    line, col = pos
    if col == 0:
        return where[line - 1][-1][1] if line - 1 in where else None
    if line not in where:
        return None
    k = bisect.bisect_right(where[line], (col, 1 << 60)) - 1
    return where[line][k][1]


def blank(M, a, b):
    """only white space from one position of the source to before another"""
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    a, b = index(M, a), index(M, b)
    return a is not None and b is not None and a <= b and not M["norm2"][a:b].strip(SKIP)


def tail(M, a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    a, b = index(M, a), index(M, b)
    return a is not None and b is not None and a <= b and not M["norm2"][a + 1:b + 1].strip(SKIP)


def check(ctx, bad, M, node, first, last, s, e):
    nm = node.name
    if s is None and e is None:
        ctx.tally("without_position")
        if first is not None and not blank(M, first, (last[0], last[1] + 1)) and index(M, last) is not None and not blank(M, first, last):
            bad("no-position", "<%s> has no position, its text is %r" % (nm, xmlu.text(node)[:100]))
        return 0
    if first is None:
        ctx.tally("empty_with_position")
        return 0
    try:
        ps = tuple(int(v) for v in s.split(":"))
    except (ValueError, AttributeError):
        ps = None
    try:
        pe = tuple(int(v) for v in e.split(":"))
    except (ValueError, AttributeError):
        pe = None
    if node.get("ref") == "prev":
        ctx.tally("ref_prev")
        return 0
    # white space, comments and directives at the edges of an element may be left out
    ok1 = ps == first or blank(M, first, ps)
    ok2 = pe == last or tail(M, pe, last)
    if nm == "comment":     # of a comment all is seen
        ok1 = ps == first
        ok2 = pe == last or pe is not None and index(M, pe) is not None and index(M, pe) == index(M, last)
    if not ok1:
        bad("start-" + nm, "<%s> start %s, its text begins at %d:%d; %r" % (nm, s, first[0], first[1], xmlu.text(node)[:100]))
    if not ok2:
        bad("end-" + nm, "<%s> end %s, its text ends at %d:%d; %r" % (nm, e, last[0], last[1], xmlu.text(node)[-100:]))
    return 1


def run(ctx):
    ctx.rule = RULE
    ctx.fan(ctx.n(25000, 400000), make, judge, chunk=100, batch=25, tag="a")
