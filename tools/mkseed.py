#!/usr/bin/env python3
"""mkseed.py SPEC...: each SPEC (python) defines id, prop, needs, breaks, edits [(file, old, new)], demo (text of demo.sh),
files {name: text}. Confirms in /repo (restored afterwards) that the change builds, passes the stable tests, that the demo
passes without and fails with it, reports which checks see it, and stores it as seeded/<id>."""
import json, os, subprocess, sys, shutil
V = "/verif"
CHECKS = os.environ.get("CHECKS")


def sh(c, t=900):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd="/repo", errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def one(spec):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    d = V + "/seeded/" + g["id"]
    assert sh("git status --porcelain --untracked-files=no")[1].strip() == "", "/repo is not clean"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + g["demo"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in g.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, out = sh("bash /opt/vp/build.sh && bash %s/demo.sh" % d)
    if rc:
        print(g["id"], "DEMO FAILS ON CLEAN", rc, out[-1500:])
        return
    try:
        for f, old, new in g["edits"]:
            s = open("/repo/" + f).read()
            if old not in s:
                print(g["id"], "text not found in", f)
                return
            open("/repo/" + f, "w").write(s.replace(old, new, 1))
        diff = sh("git diff")[1]
        open(d + "/patch.diff", "w").write(diff)
        lines = set()
        rc, out = sh("bash /opt/vp/build.sh")
        if rc:
            print(g["id"], "NO BUILD", out[-1500:])
            return
        rc, out = sh("timeout 300 bash %s/demo.sh" % d)
        print(g["id"], "demo with patch:", rc, out.strip()[-200:].replace("\n", " | "))
        if not rc:
            return
        if not os.environ.get("NOTEST"):
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ps = set(json.load(open("/tmp/seedtest.json"))["passed"])
            print(g["id"], "tests:", "pass" if st <= ps else "FAIL %s" % sorted(st - ps))
        allc = [c["id"] if "id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if not CHECKS else CHECKS.split(",")
        rc, out = sh("cd %s && VV_EVIDENCE=/tmp/seedev ./check %s" % (V, " ".join(allc)))
        hits = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        print(g["id"], "checks:", rc, sorted({h.split()[1] for h in hits}), [l for l in out.splitlines() if "[" in l and "key " in l][:3])
        # base lines changed?
        rc, base = sh("git rev-list --max-parents=0 HEAD")
        for f, old, new in g["edits"]:
            b = sh("git show %s:%s" % (base.strip(), f))[1].splitlines()
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in rem if l not in b]
            if bad:
                print(g["id"], "  WARNING lines not in base:", bad[:3])
            if not rem:
                print(g["id"], "  WARNING no original line changed")
            break
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")


for s in sys.argv[1:]:
    one(s)
