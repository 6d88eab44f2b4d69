#!/usr/bin/env python3
"""seed.py verify ID...: confirm that a planted change builds, passes the stable tests, and that its demo tells it apart.
   seed.py try ID [CHECK...]: run checks (default: the property's own) against a scratch copy with the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(i):
    d = tempfile.mkdtemp(prefix="demo-"); e = os.path.join(d, "x"); shutil.copytree(os.path.join(S, i), e, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("timeout 300 bash %s/demo.sh" % e, cwd="/repo"); shutil.rmtree(d); return r.returncode, r.stdout[-600:]
def verify(i):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    p = os.path.join(S, i, "patch.diff"); out = {}
    sh("bash /opt/vp/build.sh"); out["clean"] = demo(i)
    r = sh("git -C /repo apply " + p)
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); return False
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS", b.stdout[-800:]); return False
        t = sh("bash /opt/vp/test.sh /tmp/seedres.json"); fails = stable - set(json.load(open("/tmp/seedres.json"))["passed"])
        out["bug"] = demo(i)
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh"); sh("git -C /repo status --porcelain")
    ok = out["clean"][0] == 0 and out["bug"][0] not in (0, 124) and not fails
    print(i, "OK" if ok else "NOT OK", "clean=%d bug=%d" % (out["clean"][0], out["bug"][0]), "" if ok else (sorted(fails), out), flush=True); return ok
def tryit(i, checks):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    W = tempfile.mkdtemp(prefix="w-"); R = os.path.join(W, "r"); r = sh("set -e; mkdir %s; git -C /repo archive HEAD | tar -x -C %s; cd %s; git apply %s" % (R, R, R, os.path.join(S, i, "patch.diff"))); assert not r.returncode, r.stdout
    for c in checks or [prop]:
        r = sh("VERIF_REPO=%s python3 %s/check.py %s" % (R, V, c), env=dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
        f = [l for l in r.stdout.splitlines() if l.startswith("FAIL ")]
        print("%s %s: rc=%d %s" % (i, c, r.returncode, f[0][:260] if f else r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else ""), flush=True)
    shutil.rmtree(W)
if sys.argv[1] == "verify":
    ids = sys.argv[2:] or sorted(os.listdir(S)); bad = [i for i in ids if not verify(i)]; sys.exit(bool(bad))
else: tryit(sys.argv[2], sys.argv[3:])
