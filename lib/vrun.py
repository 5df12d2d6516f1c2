"""Runs script cases on an instrumented driver and collects what happened."""
import os, re, subprocess, sys, tempfile, shutil, threading, time, json, signal
from concurrent.futures import ThreadPoolExecutor

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "handle_abort=1:hard_rss_limit_mb=2500:max_allocation_size_mb=2000:detect_container_overflow=0:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:suppressions=%s" %
                    os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drv", "tsan.supp"),
    "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent",
    "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "",
}


def q(s):
    """encode a str/bytes argument"""
    if s is None:
        return "~"
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    out = ["'"]
    for c in s:
        if 0x20 < c < 0x7F and c != 0x25:
            out.append(chr(c))
        else:
            out.append("%%%02X" % c)
    return "".join(out)


_unq = re.compile(rb"%([0-9A-F]{2})")


def unq(t):
    """decode a printed string; None for NULL"""
    if t == "~":
        return None
    assert t[:1] == "'", t[:80]
    return _unq.sub(lambda m: bytes([int(m.group(1), 16)]), t[1:].encode("latin-1"))


class Case:
    def __init__(self, name, lines=None, leak=False, limit=25, **meta):
        self.name, self.lines, self.leak, self.limit, self.meta = name, list(lines or []), leak, limit, meta

    def add(self, *toks):
        self.lines.append(" ".join(str(t) for t in toks))
        return self

    def text(self):
        h = "case %s%s limit=%d" % (self.name, " leak" if self.leak else "", self.limit)
        return "\n".join([h] + self.lines + ["endcase"]) + "\n"


class Result:
    def __init__(self):
        self.lines = []
        self.alloc = None
        self.fds = None
        self.nthreads = None
        self.crash = None      # None or dict(kind, detail)
        self.done = False
        self.wall = 0.0


class HarnessError(Exception):
    pass


def classify(rc, err):
    e = err
    if "@badop" in e:
        raise HarnessError(e[-800:])
    if "@hang" in e:
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)", e)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", e)
    if m:
        return "ubsan:" + m.group(1)[:80]
    if "ThreadSanitizer" in e:
        m = re.search(r"ThreadSanitizer: ([a-zA-Z -]+)", e)
        return "tsan:" + (m.group(1).strip() if m else "?")
    if "@terminate" in e:
        return "terminate:" + e.split("@terminate", 1)[1].split("\n")[0].strip()[:80]
    if "hard rss limit" in e:
        return "memory-limit"
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


def frames(err):
    """names of the functions of the code under test in the first stack, innermost first"""
    fs = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err):
        l = m.group(1)
        fm = re.search(r"(/repo/src/[^ :\n]+|/gen-[a-z]+/[^ :\n]+|srcMLParser\.cpp|KeywordLexer\.cpp)(?::(\d+))?", l)
        if fm:
            fn = l.split("(")[0].split(" /")[0].strip()
            fs.append("%s@%s" % (fn, os.path.basename(fm.group(1))))
        if len(fs) >= 6:
            break
    if not fs:      # format of ThreadSanitizer
        for m in re.finditer(r"#\d+ (\S[^\n]*?) (/repo/src/[^ :\n]+|\S*/gen-[a-z]+/[^ :\n]+):", err):
            fs.append("%s@%s" % (m.group(1).split("(")[0], os.path.basename(m.group(2))))
            if len(fs) >= 6:
                break
    return fs


class Pool:
    def __init__(self, driver, workers=8, env=None, mem_gb=None, wall=400):
        self.driver, self.workers, self.wall = driver, workers, wall
        self.env = dict(SAN_ENV)
        self.env.update(env or {})
        self.stderr_notes = {}
        self.totals = {"processes": 0, "delays": 0, "wakes": 0, "waits": 0}
        self.lock = threading.Lock()
        self.hangs = 0
        self.max_hangs = 3

    def _proc(self, cases, wall=None):
        """one process over cases; returns ({name: Result}, stderr, rc)"""
        d = tempfile.mkdtemp(prefix="vd-")
        try:
            inp = "".join(c.text() for c in cases)
            ef = open(os.path.join(d, "stderr"), "w+b")
            p = subprocess.Popen([self.driver, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef,
                                 env=self.env, cwd=d, start_new_session=True)
            try:
                out, _ = p.communicate(inp.encode("latin-1"), timeout=wall or self.wall)
                to = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                to = True
            ef.seek(0)
            err = ef.read(4 << 20).decode("utf-8", "replace")
            ef.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res, cur = {}, None
        for l in out.decode("latin-1").split("\n"):
            if l.startswith("@case "):
                cur = Result()
                res[l[6:]] = cur
            elif l.startswith("@end "):
                cur.done = True
            elif l.startswith("@alloc "):
                cur.alloc = [int(x) for x in l.split()[1:]]
            elif l.startswith("@fds "):
                cur.fds = int(l.split()[1])
            elif l.startswith("@threads "):
                cur.nthreads = int(l.split()[1])
            elif l.startswith("@done"):
                with self.lock:
                    for kv in l.split()[1:]:
                        k, v = kv.split("=")
                        self.totals[k] = self.totals.get(k, 0) + int(v)
            elif cur is not None and l:
                cur.lines.append(l)
        with self.lock:
            self.totals["processes"] += 1
        return res, err, (-9 if to else p.returncode), to

    def run(self, cases, batch=None, confirm_hang=True):
        cases = list(cases)
        names = set()
        for c in cases:
            if c.name in names:
                raise HarnessError("duplicate case name " + c.name)
            names.add(c.name)
        if batch is None:
            batch = max(1, min(60, (len(cases) + self.workers * 3 - 1) // (self.workers * 3)))
        chunks = [cases[i:i + batch] for i in range(0, len(cases), batch)]
        results = {}

        def work(ch):
            out = {}
            todo = ch
            while todo:
                if self.hangs >= self.max_hangs:      # enough: do not spend the budget on more of them
                    for c in todo:
                        out[c.name] = Result()
                        out[c.name].crash = dict(kind="skipped", detail="", frames=[])
                    break
                res, err, rc, to = self._proc(todo)
                k = 0
                for c in todo:
                    r = res.get(c.name)
                    if r is None or not r.done:
                        break
                    out[c.name] = r
                    k += 1
                if k == len(todo):
                    if "WARNING: ThreadSanitizer" in err:      # its exit code may be that of another sanitizer's options
                        rc = 66
                    if rc not in (0, 66):
                        raise HarnessError("driver exit %d after last case: %s" % (rc, err[-2000:]))
                    if err:
                        self.stderr_notes[todo[0].name] = err
                    if rc == 66:     # ThreadSanitizer: attribute to the batch
                        out[todo[-1].name].crash = dict(kind=classify(66, err), detail=err[:20000], frames=frames(err), cases=list(todo))
                    break
                bad = todo[k]
                r = res.get(bad.name) or Result()
                if to or "@hang" in err:
                    # a time limit alone is not a verdict: repeat the case alone, with more time
                    lim = bad.limit
                    if confirm_hang:
                        bad.limit = lim * 3
                        res2, err2, rc2, to2 = self._proc([bad], wall=self.wall)
                        bad.limit = lim
                        r2 = res2.get(bad.name)
                        if r2 is not None and r2.done and rc2 == 0:
                            r2.slow = True
                            out[bad.name] = r2
                            todo = todo[k + 1:]
                            continue
                        err = err2 or err
                        rc = rc2
                    with self.lock:
                        self.hangs += 1
                    r.crash = dict(kind="hang" if (to or "@hang" in err) else classify(rc, err), detail=err[-20000:], frames=frames(err))
                elif rc == 0 and not err:
                    raise HarnessError("driver stopped early at %s" % bad.name)
                else:
                    kind = classify(rc, err)
                    if rc == -9 and not to:
                        raise HarnessError("driver killed (memory?) at %s" % bad.name)
                    r.crash = dict(kind=kind, detail=err[:20000], frames=frames(err), before=[c.name for c in todo[:k]])
                out[bad.name] = r
                todo = todo[k + 1:]
            return out

        with ThreadPoolExecutor(self.workers) as ex:
            for o in ex.map(work, chunks):
                results.update(o)
        return results
