#!/usr/bin/env python3
"""python3 check.py C01 [quick|thorough]     runs a check
python3 check.py replay FILE [flavor]       runs the driver script of a stored replay and prints what happened"""
import importlib, os, sys
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, "lib"), os.path.join(D, "checks")]


def replay(path, flavor=None):
    flavor = flavor or ("tsan" if "ThreadSanitizer" in open(path, errors="replace").read() else "full")
    import vbuild, subprocess, tempfile, shutil
    from vrun import SAN_ENV
    exe = vbuild.build(flavor)
    s = "".join(l for l in open(path, errors="surrogateescape") if not l.startswith("#"))
    d = tempfile.mkdtemp(prefix="vd-")
    try:
        return subprocess.run([exe, d], input=s.encode("latin-1", "surrogateescape"), env=dict(SAN_ENV), cwd=d).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(*sys.argv[2:]))
    import vctx
    m = importlib.import_module(sys.argv[1].lower())
    sys.exit(vctx.main(sys.argv[1].upper(), m.run, sys.argv[2:]))
