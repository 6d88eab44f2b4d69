import hashlib, os, re, subprocess, threading, json, sys
from vlib import *
NAMES = {2: 512, 3: 768, 4: 1024}
SIZES = lambda K: dict(PUBLICKEYBYTES=384*K+32, SECRETKEYBYTES=768*K+96, CIPHERTEXTBYTES=32*(K*(11 if K == 4 else 10)+(5 if K == 4 else 4)), KEYPAIRCOINBYTES=64, ENCCOINBYTES=32, BYTES=32)
def run(only=None):
    d = scratch(); lib = build_libs(os.path.join(d, "src"))
    res = Result("C03")
    exe = cc_harness(os.path.join(d, "c03"), ["c03.c", "mc.c", "spec.c", "libs.c"])
    if not only:
        # the model against the published digests (binds the specification)
        tv = cc_harness(os.path.join(d, "tvecs"), ["tvecs.c", "spec.c"])
        sums = {}
        p = os.path.join(REPO, "SHA256SUMS")
        for l in open(p) if os.path.exists(p) else []:
            w = l.split()
            if len(w) == 2: sums[w[1]] = w[0]
        got = {}
        def one(K):
            pr = subprocess.Popen([tv, str(K), "10000"], stdout=subprocess.PIPE); h = hashlib.sha256()
            for b in iter(lambda: pr.stdout.read(1 << 20), b""): h.update(b)
            pr.wait(); got[K] = h.hexdigest()
        ts = [threading.Thread(target=one, args=(K,)) for K in (2, 3, 4)]
        [t.start() for t in ts]
        # published lengths: API headers of both implementations
        nsz = 0
        for impl in ("ref", "avx2"):
            src = '#include <stdio.h>\n#include "api.h"\nint main(void){'
            for K, n in NAMES.items():
                for m in SIZES(K):
                    src += 'printf("%d %s %%ld %%ld\\n",(long)pqcrystals_kyber%d_%s,(long)pqcrystals_kyber%d_%s_%s);' % (K, m, n, m, n, impl, m)
            src += "}\n"
            f = os.path.join(d, "sz_%s.c" % impl); open(f, "w").write(src)
            b = subprocess.run(["gcc", "-w", "-I" + os.path.join(lib, impl), f, "-o", f + ".x"], capture_output=True, text=True)
            if b.returncode: res.violation("%s/api.h no longer declares the published sizes: %s" % (impl, b.stderr[-800:])); continue
            for l in subprocess.run([f + ".x"], capture_output=True, text=True).stdout.splitlines():
                K, m, a, c = l.split(); nsz += 1
                if int(a) != SIZES(int(K))[m] or int(c) != SIZES(int(K))[m]:
                    res.violation("%s/api.h: %s for K=%s is %s/%s, the functions use %d" % (impl, m, K, a, c, SIZES(int(K))[m]))
        res.counters["published size macros compared"] = nsz
        [t.join() for t in ts]
        for K, n in NAMES.items():
            want = sums.get("tvecs%d" % n)
            if want is None: raise CheckError("no digest tvecs%d in SHA256SUMS" % n)
            if got[K] != want: raise CheckError("model does not reproduce SHA256SUMS tvecs%d" % n)
        res.counters["model test vectors matching SHA256SUMS"] = 30000
    oj = os.path.join(d, "o.json")
    rc, txt = run_harness(exe, lib, "C03", oj, only=only); sys.stdout.write(txt)
    if only: return rc
    if rc not in (0, 1): raise CheckError("harness status %d" % rc)
    res.add(json.load(open(oj)))
    for l in txt.splitlines():
        if l.startswith("VIOLATION "): res.violations.append((l, ""))
    return res.finish("every enumerated input is run through the specification and the library; outputs, extents and return codes must agree byte for byte")
