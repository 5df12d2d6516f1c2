"""Common frame of all checks: building, counting what was observed, verdicts, known findings, evidence."""
import hashlib, json, multiprocessing, os, random, re, sys, time, traceback

import vbuild
from vrun import Pool, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def load_findings():
    """finding: property=ID key=KEY text...   ->  {(ID, KEY): text}; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%d-%s" % (prop, seed, tier))
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.vkinds = {}
        self.known_seen = {}
        self.findings = load_findings()
        self.pools = {}
        self.rule = ""
        self.level = "exploration"
        self.assumptions = []
        self.notes = []
        self.defer = None
        self.errors = []

    # ---- budget
    def n(self, quick, thorough=None):
        k = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 12)
        s = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int(k * s))

    # ---- machinery
    def pool(self, flavor="full", driver="drv", workers=8, **kw):
        k = (flavor, driver, workers)
        if k not in self.pools:
            exe = vbuild.build(flavor, driver, **kw)
            self.pools[k] = Pool(exe, workers=workers)
        return self.pools[k]

    # ---- what was observed
    def seen(self, key, nontrivial=True):
        """one evaluation of the oracle; key identifies what was observed (for counting distinct ones)"""
        self.evals += 1
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf-8", "surrogatepass")
            self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def tally(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:1500])

    # ---- verdicts
    def violation(self, kind, what, cases=(), key=None, extra=None):
        """kind: short class (one replay is stored per kind, at most 12 kinds); what: text"""
        key = key or kind
        if (self.prop, key) in self.findings:
            self.known_seen[key] = self.findings[(self.prop, key)]
            return
        self.vkinds[kind] = self.vkinds.get(kind, 0) + 1
        if self.defer is not None:
            if self.vkinds[kind] == 1:
                self.defer.append((kind, str(what), [c.text() if hasattr(c, "text") and callable(c.text) else str(c) for c in cases], key, extra))
            return
        if self.vkinds[kind] > 1 or len(self.viol) >= 12:
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.txt" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", kind)[:60], self.seed))
        with open(p, "w", errors="surrogateescape") as f:
            f.write("# property %s  seed %d  tier %s\n# %s\n" % (self.prop, self.seed, self.tier, kind))
            for l in str(what).split("\n"):
                f.write("# " + l + "\n")
            if extra:
                for l in str(extra)[:20000].split("\n"):
                    f.write("# | " + l + "\n")
            for c in cases:
                f.write(c.text() if hasattr(c, "text") and callable(c.text) else str(c))
        self.viol.append((kind, p, str(what)[:600]))
        print("violation %s: %s" % (kind, str(what)[:900].replace("\n", "\n    ")), flush=True)

    def crash(self, case, res, prefix="crash"):
        """report a crashed case (crash, hang, sanitizer report); True if there was one"""
        if res is None:
            return True        # not run (after several hangs)
        if not res.crash:
            return False
        c = res.crash
        if c["kind"] == "skipped":
            return True
        top = c.get("frames") or ["?"]
        self.violation("%s-%s-%s" % (prefix, c["kind"].split(" ")[0][:40], re.sub(r"[^A-Za-z0-9_:~]", "", top[0].split("@")[0])[:40]),
                       "%s in case %s: frames %s" % (c["kind"], case.name, " < ".join(top)), c.get("cases") or [case], extra=c.get("detail", ""))
        return True

    # ---- parallel work: generate, run and judge in 8 processes
    def fan(self, total, make, judge, flavor="full", chunk=160, batch=40, tag="", workers=8, pool=None, after=None):
        """make(r, i, ctx) -> Case or list of Cases or None; judge(ctx, case, result) or, if make returned a list,
        judge(ctx, cases, results).  Everything is derived from the seed and the worker number."""
        base = pool or self.pool(flavor)
        stop = multiprocessing.Value("i", 0)
        hangs = multiprocessing.Value("i", 0)
        if len(self.viol) >= 8:
            return
        share = [total // workers + (1 if w < total % workers else 0) for w in range(workers)]
        mp = multiprocessing.get_context("fork")

        def work(w, conn):
            sub = Ctx(self.prop, self.tier, self.seed)
            sub.findings = self.findings
            sub.defer = []
            sub.rng = r = random.Random("%s-%d-%s-%s-%d" % (self.prop, self.seed, self.tier, tag, w))
            P = Pool(base.driver, workers=1)
            P.env = dict(base.env)
            P.max_hangs = 1
            err = None
            try:
                k = 0
                while k < share[w] and not stop.value:
                    m = min(chunk, share[w] - k)
                    groups = [make(r, "%s%d_%d" % (tag, w, k + i), sub) for i in range(m)]
                    flat = []
                    for g in groups:
                        if g is not None:
                            flat += g if isinstance(g, list) else [g]
                    R = P.run(flat, batch=batch)
                    for g in groups:
                        if g is None:
                            continue
                        if isinstance(g, list):
                            judge(sub, g, [R.get(c.name) for c in g])
                        else:
                            judge(sub, g, R.get(g.name))
                    k += m
                    if P.hangs:
                        with hangs.get_lock():
                            hangs.value += P.hangs
                            if hangs.value >= 3:
                                stop.value = 1
                        P.hangs = 0
                    if len(sub.defer) >= 6:
                        stop.value = 1
            except HarnessError as e:
                err = "HarnessError: %s" % e
            except Exception:
                err = traceback.format_exc()
            conn.send((sub.evals, sub.keys, sub.cov, sub.samples, sub.defer, sub.known_seen, P.totals, err))
            conn.close()

        ps = []
        for w in range(workers):
            if not share[w]:
                continue
            a, b = mp.Pipe(False)
            p = mp.Process(target=work, args=(w, b))
            p.start()
            b.close()
            ps.append((p, a))
        err = None
        for p, a in ps:
            try:
                ev, keys, cov, samples, defer, known, totals, e = a.recv()
            except EOFError:
                err = err or "worker died"
                p.join()
                continue
            p.join()
            self.evals += ev
            self.keys |= keys
            for k, v in cov.items():
                self.cov[k] = self.cov.get(k, 0) + v if not isinstance(v, (list, dict)) else v
            for s in samples[:2]:
                self.sample(s)
            for kind, what, texts, key, extra in defer:
                self.violation(kind, what, texts, key, extra)
            self.known_seen.update(known)
            for k, v in totals.items():
                base.totals[k] = base.totals.get(k, 0) + v
            err = err or e
        if err:
            self.errors.append(err)

    def finish(self, error=None):
        if self.errors:
            error = (error + "\n" if error else "") + self.errors[0]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict({"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": self.rule,
                              "samples": self.samples or ["(none)"]}, **self.cov),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.viol),
        }
        tot = {}
        for p in self.pools.values():
            for k, v in p.totals.items():
                tot[k] = tot.get(k, 0) + v
        if tot:
            ev["coverage"]["driver"] = tot
        if self.vkinds:
            ev["coverage"]["violation_kinds"] = self.vkinds
        if error:
            ev["coverage"]["error"] = error[-2000:]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k, t in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.tier, self.evals, len(self.keys), time.time() - self.t0))
        for kind, p, what in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if self.viol:
            return 1
        if error:
            print("ERROR " + error, file=sys.stderr)
            return 2
        if self.evals == 0 or len(self.keys) < 2:
            print("ERROR nothing was observed (inconclusive)", file=sys.stderr)
            return 2
        return 0


def main(prop, fn, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    ctx = Ctx(prop, tier, seed)
    err = None
    try:
        fn(ctx)
    except (HarnessError, vbuild.BuildError) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    return ctx.finish(err)
