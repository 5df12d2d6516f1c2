"""Builds the code under test from /repo's current working tree, instrumented.

Everything goes to /verif/.build/<flavor> (git-ignored).  The build is a ninja
file written here, so that it is incremental; the list of sources is globbed
each time, exactly as the project's own CMake files do.
"""
import glob, os, subprocess, sys, hashlib, time, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ("-std=gnu++14 -w -include algorithm -DWITH_LIBXSLT -I{repo}/src/libsrcml "
          "-I{repo}/src/parser -I{gen} -I/usr/include/libxml2 -D_GLIBCXX_ASSERTIONS "
          "-fno-omit-frame-pointer -gline-tables-only ")
UB = ("-fsanitize=undefined -fno-sanitize=alignment,vptr,function,object-size "
      "-fno-sanitize-recover=undefined ")
FLAVORS = {
    # deep: memory + undefined behaviour in everything, parser included
    "full": dict(cxx="clang++", flags="-O1 -fsanitize=address " + UB, parser="-O1 -fsanitize=address " + UB,
                 link="-fsanitize=address,undefined "),
    # memory errors everywhere, undefined behaviour in the library (parser without UBSan: builds fast)
    "asan": dict(cxx="clang++", flags="-O1 -fsanitize=address " + UB, parser="-O1 -fsanitize=address ",
                 link="-fsanitize=address,undefined "),
    "tsan": dict(cxx="clang++", flags="-O1 -fsanitize=thread ", parser="-O1 -fsanitize=thread ",
                 link="-fsanitize=thread "),
    "plain": dict(cxx="clang++", flags="-O1 ", parser="-O1 ", link=""),
}
LIBS = "-lantlr -lxml2 -lxslt -lexslt -lcrypto -ldl -lrt -lpthread -rdynamic"


class BuildError(Exception):
    pass


def _antlr_lib():
    for n in ("libantlr-pic.a", "libantlr.a"):
        for d in ("/usr/lib", "/usr/local/lib", "/usr/lib/x86_64-linux-gnu"):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
    return "-lantlr"


def grammar(gen):
    """(re)generate the lexers and the parser when a grammar changed"""
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "src/parser")
    gs = sorted(glob.glob(src + "/*.g"))
    h = hashlib.sha256()
    for g in gs:
        h.update(open(g, "rb").read())
    stamp = os.path.join(gen, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    steps = [("CommentTextLexer.g", None), ("TextLexer.g", None), ("OperatorLexer.g", "TextLexer.g"),
             ("KeywordLexer.g", "OperatorLexer.g;TextLexer.g"),
             ("srcMLParser.g", "OperatorLexer.g;KeywordLexer.g;TextLexer.g")]
    for g, lib in steps:
        cmd = ["runantlr", "-o", gen] + (["-glib", lib] if lib else []) + [g]
        r = subprocess.run(cmd, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("antlr %s:\n%s" % (g, r.stdout.decode(errors="replace")[-3000:]))
    open(stamp, "w").write(h.hexdigest())


def build(flavor, driver="drv", extra_sources=(), extra_flags="", extra_libs="", quiet=False):
    """returns the path of the instrumented driver"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + flavor), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    f = FLAVORS[flavor]
    d = os.path.join(BUILD, flavor)
    gen = os.path.join(BUILD, "gen-" + flavor)
    os.makedirs(d, exist_ok=True)
    grammar(gen)
    inc = COMMON.format(repo=REPO, gen=gen)
    L = ["ninja_required_version = 1.3", "cxx = " + f["cxx"],
         "rule cc", "  command = $cxx $fl -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ld", "  command = $cxx $in -o $out %s %s %s %s" % (f["link"], extra_libs, LIBS.replace("-lantlr", _antlr_lib()), "")]
    objs = []

    def add(src, fl, tag):
        o = "%s/%s_%s.o" % (d, tag, os.path.basename(src))
        L.append("build %s: cc %s" % (o, src))
        L.append("  fl = %s %s" % (inc, fl))
        objs.append(o)

    for n in ("srcMLParser.cpp", "KeywordLexer.cpp", "CommentTextLexer.cpp"):
        add(os.path.join(gen, n), f["parser"], "g")
    for s in sorted(glob.glob(REPO + "/src/parser/*.cpp")):
        # the character buffer and the output writer are hand-written: always fully instrumented
        add(s, f["flags"], "p")
    for s in sorted(glob.glob(REPO + "/src/libsrcml/*.cpp")):
        add(s, f["flags"], "l")
    for s in extra_sources:
        add(s, f["flags"] + extra_flags, "x")
    add(os.path.join(VERIF, "drv", driver + ".cpp"), f["flags"] + extra_flags, "d")
    out = "%s/%s" % (d, driver)
    L.append("build %s: ld %s" % (out, " ".join(objs)))
    L.append("default " + out)
    nf = os.path.join(d, driver + ".ninja")
    open(nf, "w").write("\n".join(L) + "\n")
    r = subprocess.run(["ninja", "-C", d, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-6000:])
    if not quiet:
        print("build %s/%s: %.1fs" % (flavor, driver, time.time() - t0), flush=True)
    lock.close()
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["asan"]:
        print(build(fl))
