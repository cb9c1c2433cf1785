#!/usr/bin/env python3
"""mut.py C01 [name...]: apply each source change of tools/mutants/c01.py to a scratch
copy of /repo's sources and run the check against the copy (VV_REPO).
'V' entries must be reported, 'Q' entries (same behaviour) must be quiet."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(pid, m, build):
    name, kind, edits = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for x in ("libvvhd", "utils"):
            shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/" + x, d + "/" + x)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if old not in s:
                return name, kind, "NOT-APPLICABLE", "text not found in " + f
            s = s.replace(old, new, 1)
            open(p, "w", encoding="utf-8").write(s)
        if build:
            for f in sorted({f for f, _, _ in edits if f.endswith(".cpp")}):
                p = subprocess.run(["g++", "-std=c++11", "-fopenmp", "-fsyntax-only", "-w", "-I" + d + "/libvvhd/headers", "-I/opt/vp/deps/lua/src",
                                    "-I/opt/vp/deps/hdf5/include", "-I/opt/vp/deps/libarchive/include", d + "/" + f],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    return name, kind, "NO-COMPILE", p.stdout[:300]
        e = dict(os.environ, VV_REPO=d, VV_EVIDENCE=d + "/ev")
        p = subprocess.run([VERIF + "/check"] + pid.split(","), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l.replace(d + "/", "") for l in p.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
        r = {0: "quiet", 1: "REPORTED"}.get(p.returncode, "rc=%d" % p.returncode)
        return name, kind, r, "\n      ".join(x[:230] for x in out[:4])
    finally:
        shutil.rmtree(d)


def main():
    pid = sys.argv[1]
    a = sys.argv[2:]
    spec = importlib.util.spec_from_file_location("m", HERE + "/mutants/%s.py" % pid.split(",")[0].lower())
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ms = [x for x in m.M if not a or x[0] in a]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for name, kind, r, txt in ex.map(lambda x: one(pid, x, True), ms):
            ok = r == ("REPORTED" if kind == "V" else "quiet")
            bad += not ok
            print("%-4s %s %-28s %s" % ("ok" if ok else "BAD", kind, name, r))
            if not ok or kind == "V":
                print("      " + txt)
    print("%d of %d as expected" % (len(ms) - bad, len(ms)))
    return bad != 0


sys.exit(main())
