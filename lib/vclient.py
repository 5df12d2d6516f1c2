"""Builds and runs the command-line client (without its CLI11 option parser, see drv/client.cpp)."""
import glob, os
import vbuild

WRAP = "pthread_mutex_lock pthread_mutex_unlock srcml_unit_parse_memory srcml_unit_parse_filename srcml_archive_write_unit srcml_archive_close".split()


def build(flavor, quiet=False):
    src = [s for s in sorted(glob.glob(vbuild.REPO + "/src/client/*.cpp")) if os.path.basename(s) != "srcml_cli.cpp"]
    return vbuild.build(flavor, "client", src, " -I%s/src/client -I%s/drv/stub " % (vbuild.REPO, vbuild.VERIF),
                        "-larchive -lcurl " + " ".join("-Wl,--wrap=" + w for w in WRAP), quiet)


# ---- running it
import atexit, json, multiprocessing, random, shlex, shutil, signal, subprocess, tempfile, traceback
import vctx, vrun

NOBODY = 65534
MARKS = ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "AddressSanitizer:DEADLYSIGNAL", "terminate called")


class Client:
    """One scratch directory with a copy of the client; runs happen below it, as an unprivileged user."""

    def __init__(self, flavor):
        self.flavor = flavor
        exe = build(flavor)
        self.base = tempfile.mkdtemp(prefix="verif-client-")
        os.chmod(self.base, 0o755)
        self.pid = os.getpid()
        atexit.register(self.clean)
        self.exe = self.base + "/client"
        shutil.copy(exe, self.exe)
        os.chmod(self.exe, 0o755)
        self.env = {"PATH": "/usr/bin:/bin", "HOME": self.base, "LC_ALL": "C.UTF-8"}
        for k, v in vrun.SAN_ENV.items():
            if k.endswith("_OPTIONS"):
                self.env[k] = v.replace(vbuild.VERIF + "/drv/tsan.supp", self.base + "/tsan.supp")
        shutil.copy(vbuild.VERIF + "/drv/tsan.supp", self.base + "/tsan.supp")
        os.chmod(self.base + "/tsan.supp", 0o644)
        self.drop = os.geteuid() == 0

    def clean(self):
        if os.getpid() == self.pid and self.base.startswith(tempfile.gettempdir() + "/verif-client-"):
            shutil.rmtree(self.base, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.base, name)
        os.makedirs(d + "/w")
        if self.drop:
            os.chown(d, NOBODY, NOBODY)
            os.chown(d + "/w", NOBODY, NOBODY)
        return d

    def own(self, top):
        if self.drop:
            for p, ds, fs in os.walk(top):
                for f in ds + fs:
                    os.lchown(os.path.join(p, f), NOBODY, NOBODY)

    def run(self, args, cwd, events=None, nap=None, timeout=40, stdin=b""):
        """-> dict(rc, out, err, hang, marks)"""
        env = dict(self.env)
        if events:
            env["SRCML_EVENTS"] = events
        if nap:
            env["SRCML_NAP"] = "%d,%d" % nap
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}
        p = subprocess.Popen([self.exe] + [a if isinstance(a, bytes) else os.fsencode(a) for a in args], cwd=cwd, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
        hang = False
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        e = err.decode("utf-8", "replace")
        return dict(rc=p.returncode, out=out, err=e, hang=hang, marks=[m for m in MARKS if m in e])


def frames(err):
    """function names of the first report, innermost first"""
    import re
    out = []
    for l in err.split("\n"):
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?)(?: /| \(|$)", l)
        if m:
            out.append(m.group(1)[:80])
        elif out and not l.strip():
            break
    return out


def crashed(ctx, client, case, res, text):
    """a sanitizer report, a signal or a hang is a violation; True if there was one"""
    if res["hang"]:
        ctx.violation("hang", "the client did not finish: %s" % case, [text], extra=res["err"][-3000:])
        return True
    if res["marks"] or (res["rc"] is not None and (res["rc"] < 0 or res["rc"] in (66, 77))):
        f = [x for x in frames(res["err"]) if "interceptor" not in x and not x.startswith(("std::", "__"))] or frames(res["err"]) or ["?"]
        import re
        ctx.violation("crash-%s" % re.sub(r"[^A-Za-z0-9_:]", "", f[0].split("(")[0])[:50], "%s rc %s: %s; frames %s" % (res["marks"] or "signal", res["rc"], case, " < ".join(f[:6])),
                      [text], extra=res["err"][:12000])
        return True
    return False


def script(files, args, extra=""):
    """the case as a shell script (SRCML=client) for the replay file; files: name -> bytes"""
    import base64
    o = ["# run in an empty directory, with SRCML set to the client", extra and "# " + extra]
    for n, b in sorted(files.items()):
        if "/" in n:
            o.append("mkdir -p -- %s" % shlex.quote(os.path.dirname(n)))
        o.append("echo %s | base64 -d > %s" % (base64.b64encode(b).decode(), shlex.quote(n)))
    o.append('"$SRCML" ' + " ".join(shlex.quote(a if isinstance(a, str) else os.fsdecode(a)) for a in args))
    return "\n".join(x for x in o if x) + "\n"


def fan(ctx, client, total, job, tag="", workers=8):
    """job(r, i, sub) total times over 8 processes, with everything derived from the seed and the worker number"""
    mp = multiprocessing.get_context("fork")
    stop = multiprocessing.Value("i", 0)
    share = [total // workers + (1 if w < total % workers else 0) for w in range(workers)]

    def work(w, conn):
        sub = vctx.Ctx(ctx.prop, ctx.tier, ctx.seed)
        sub.findings = ctx.findings
        sub.defer = []
        r = random.Random("%s-%d-%s-%s-%d" % (ctx.prop, ctx.seed, ctx.tier, tag, w))
        err = None
        try:
            for k in range(share[w]):
                if stop.value:
                    break
                job(r, "%s%d_%d" % (tag, w, k), sub)
                if len(sub.defer) >= 4 or sub.vkinds.get("hang", 0) >= 2:
                    stop.value = 1
        except Exception:
            err = traceback.format_exc()
        conn.send((sub.evals, sub.keys, sub.cov, sub.samples, sub.defer, sub.known_seen, err))
        conn.close()
        os._exit(0)

    ps = []
    for w in range(workers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=work, args=(w, b))
        p.start()
        b.close()
        ps.append((p, a))
    for p, a in ps:
        try:
            ev, keys, cov, samples, defer, known, err = a.recv()
        except EOFError:
            ctx.errors.append("worker died")
            p.join()
            continue
        p.join()
        ctx.evals += ev
        ctx.keys |= keys
        for k, v in cov.items():
            ctx.cov[k] = ctx.cov.get(k, 0) + v
        for s in samples[:2]:
            ctx.sample(s)
        for d in defer:
            ctx.violation(*d)
        ctx.known_seen.update(known)
        if err:
            ctx.errors.append(err)
