from vlib import *
RULE = ("randomised calls with every drawn byte chosen: 64 contents, all 512/256 bit positions over three backgrounds, all sequences of 5 operations to depth 5 (thorough 6) with "
        "consumption of the random stream checked call by call, and the tree's own random-byte routine over an interposed kernel with all answer plans of 5 answers (quick: 250 of 3125)")
def run(only=None):
    d = scratch(); lib = os.path.join(d, "src")
    build_libs(lib)
    for impl, sub in (("ref", "ref"), ("avx2", "avx2")):
        r = subprocess.run(["gcc", "-O2", "-w", "-fPIC", "-shared", os.path.join(lib, sub, "randombytes.c"), "-o", os.path.join(d, "librnd-%s.so" % impl)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError("randombytes.c does not build: " + r.stdout[-2000:])
    exe = cc_harness(os.path.join(d, "c21"), ["c21.c", "mc.c", "spec.c", "libs.c"])
    oj = os.path.join(d, "o.json"); res = Result("C21")
    rc, txt = run_harness(exe, lib, "C21", oj, arg=d, only=only)
    sys.stdout.write(txt)
    if only: return rc
    if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
    res.add(json.load(open(oj)))
    for l in txt.splitlines():
        if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
    return res.finish(RULE)
