import itertools, re
from vlib import *
RULE = ("load configurations of the nine built libraries in the global scope, each in its own process, every function compared with the specification: all 720 orders of the KEM libraries with the hash libraries "
        "first (immediate binding), last and interleaved (lazy), all 63 subsets with only their own implementation's hash libraries, closing and reloading each (thorough: all 9! orders); "
        "static links of all variants (all objects and demand-loaded archives, every rotation of the link order, both directions) run through the shipped API headers; symbol tables and headers enumerated completely")
N = {2: 512, 3: 768, 4: 1024}
ARWRAP = r"""#!/bin/bash
# instead of a shared library, make an archive of the separately compiled sources
shared=; out=; srcs=(); rest=(); prev=
for a in "$@"; do
  case "$a" in -march=native) a=-march=%s;; -mtune=native) a=-mtune=generic;; esac
  if [ "$prev" = -o ]; then out=$a; prev=; continue; fi
  case "$a" in -shared) shared=1;; -o) prev=-o;; *.c|*.S|*.o) srcs+=("$a");; *) rest+=("$a");; esac
done
if [ -z "$shared" ]; then exec gcc "${rest[@]}" "${srcs[@]}" -o "$out"; fi
d=$out.d; mkdir -p "$d"; objs=()
for s in "${srcs[@]}"; do o=$d/$(basename "${s%%.*}").${s##*.}.o
  case "$s" in *.o) cp "$s" "$o";; *) gcc "${rest[@]}" -c "$s" -o "$o" || exit 1;; esac; objs+=("$o"); done
rm -f "$out"; exec ar rcs "$out" "${objs[@]}"
""" % MARCH
IGN = {"_init", "_fini", "_edata", "_end", "__bss_start"}
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def nmsyms(path, dyn):
    r = sh(["nm", "-P"] + (["-D"] if dyn else []) + [path]); out = []
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) >= 2 and len(f[1]) == 1 and (f[1].isupper() or f[1] in "uvw"): out.append((f[0].split("@")[0], f[1]))
    return out
def libs():
    L = []
    for K in (2, 3, 4): L.append(("ref/lib/libpqcrystals_kyber%d_ref.so" % N[K], ["pqcrystals_kyber%d_ref_" % N[K]], "ref"))
    for K in (2, 3, 4): L.append(("avx2/libpqcrystals_kyber%d_avx2.so" % N[K], ["pqcrystals_kyber%d_avx2_" % N[K]], "avx2"))
    L.append(("ref/lib/libpqcrystals_fips202_ref.so", ["pqcrystals_kyber_fips202_ref_", "pqcrystals_fips202_ref_", "libpqcrystals_fips202_ref_"], "ref"))
    L.append(("avx2/libpqcrystals_fips202_ref.so", ["pqcrystals_kyber_fips202_avx2_", "pqcrystals_fips202_avx2_"], "avx2"))
    L.append(("avx2/libpqcrystals_fips202x4_avx2.so", ["pqcrystals_kyber_fips202x4_avx2_", "pqcrystals_fips202x4_avx2_"], "avx2"))
    return L
def symbols(res, base, dyn):
    owner = {}
    for path, ns, impl in libs():
        for s, t in nmsyms(os.path.join(base, path), dyn):
            if t in "Uwv" or s in IGN: continue
            res.trans += 1; res.counters["global symbols examined"] = res.counters.get("global symbols examined", 0) + 1
            if not any(s.startswith(n) for n in ns):
                res.violation("%s (%s) defines the global symbol %s outside its namespace %s" % (path, "shared" if dyn else "static", s, ns[0])); return owner
            if s in owner and owner[s] != path:
                res.violation("the global symbol %s is defined in both %s and %s" % (s, owner[s], path)); return owner
            owner[s] = path
    return owner
def apitu(impl, d, src):
    t = '#include "api.h"\n#include "c17api.h"\nextern const api api_%s[3]; const api api_%s[3]={' % (impl, impl)
    for K in (2, 3, 4):
        p = "pqcrystals_kyber%d_%s_" % (N[K], impl)
        t += "{" + ",".join(p + x for x in ("PUBLICKEYBYTES", "SECRETKEYBYTES", "CIPHERTEXTBYTES", "KEYPAIRCOINBYTES", "ENCCOINBYTES", "BYTES", "keypair_derand", "keypair", "enc_derand", "enc", "dec")) + "},"
    f = os.path.join(d, "api_%s.c" % impl); open(f, "w").write(t + "};\n")
    o = f[:-2] + ".o"; aux = f[:-2] + ".aux"
    r = sh(["gcc", "-O1", "-Wall", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-aux-info", aux, "-I" + os.path.join(src, impl), "-I" + HAR, "-c", f, "-o", o])
    return o, aux, r
def static(res, d, only):
    src = os.path.join(d, "arch"); copy_repo_to(src)
    w = os.path.join(d, "arcc"); open(w, "w").write(ARWRAP); os.chmod(w, 0o755)
    for s in ("ref", "avx2"): make(src, s, ["shared"], w)
    owner = symbols(res, src, False)
    if res.violations: return
    objs = []
    for impl in ("ref", "avx2"):
        o, aux, r = apitu(impl, d, src)
        if r.returncode:
            res.violation("a program using %s/api.h as documented does not compile" % impl, body=r.stdout[-3000:]); return
        objs.append(o)
        names = set()
        for l in open(aux):
            m = re.search(r"api\.h:\d+:\w+ \*/ .*?(\w+) \(", l)
            if m and "/%s/api.h" % impl in l: names.add(m.group(1))
        if len(names) < 15: raise CheckError("only %d declarations recognised in %s/api.h" % (len(names), impl))
        for n in sorted(names):
            if n not in owner: res.violation("%s/api.h declares %s, which no library defines" % (impl, n)); return
            if "_%s_" % impl not in n: res.violation("%s/api.h declares %s, a function of another implementation" % (impl, n)); return
        res.counters["API declarations matched with definitions"] = res.counters.get("API declarations matched with definitions", 0) + len(names)
        for K in (2, 3, 4):
            t = '#include "kem.h"\n'
            pk, sk, ct = 384 * K + 32, 768 * K + 96, {2: 768, 3: 1088, 4: 1568}[K]
            for m, v in (("CRYPTO_PUBLICKEYBYTES", pk), ("CRYPTO_SECRETKEYBYTES", sk), ("CRYPTO_CIPHERTEXTBYTES", ct), ("CRYPTO_BYTES", 32)): t += '_Static_assert(%s==%d,"%s of parameter set %d");\n' % (m, v, m, N[K])
            t += 'int (*f)(uint8_t*,const uint8_t*,const uint8_t*)=crypto_kem_dec; int main(void){ return sizeof(CRYPTO_ALGNAME)!=sizeof("Kyber%d"); }\n' % N[K]
            f = os.path.join(d, "kem.c"); open(f, "w").write(t)
            r = sh(["gcc", "-w", "-DKYBER_K=%d" % K, "-I" + os.path.join(src, impl), "-c", f, "-o", os.path.join(d, "kem.o")])
            if r.returncode: res.violation("%s/kem.h for Kyber%d disagrees with the API header" % (impl, N[K]), body=r.stdout[-2000:]); return
            u = [s for s, t_ in nmsyms(os.path.join(d, "kem.o"), False) if t_ == "U" and s.endswith("_dec")]
            if u != ["pqcrystals_kyber%d_%s_dec" % (N[K], impl)]: res.violation("%s/kem.h for Kyber%d maps crypto_kem_dec to %s" % (impl, N[K], u)); return
            res.states += 1
    for s in ("c17s.c", "spec.c"):
        o = os.path.join(d, s + ".o"); r = sh(["gcc", "-O2", "-w", "-I" + HAR, "-c", os.path.join(HAR, s), "-o", o])
        if r.returncode: raise CheckError(r.stdout)
        objs.append(o)
    ar = [os.path.join(src, p) for p, _, _ in libs()]
    orders = [o for i in range(9) for o in (ar[i:] + ar[:i], (ar[i:] + ar[:i])[::-1])]
    if THOROUGH: orders += [list(p[:6]) + ar[6:] for p in itertools.permutations(ar[:6])]
    jobs = [(k, o, m) for k, o in enumerate(orders) for m in ("whole", "demand")]
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        k, o, m = j; exe = os.path.join(d, "st-%d-%s" % (k, m))
        pre, post = (["-Wl,--whole-archive"], ["-Wl,--no-whole-archive"]) if m == "whole" else (["-Wl,--start-group"], ["-Wl,--end-group"])
        l = sh(["gcc"] + objs + pre + o + post + ["-o", exe])
        if l.returncode: return j, "does not link", l.stdout
        r = sh([exe], timeout=120); os.unlink(exe)
        return j, None if r.returncode == 0 else "misbehaves (status %d)" % r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        for (k, o, m), bad, txt in ex.map(one, jobs):
            if bad and not res.violations:
                res.violation("a program statically linked with all variants (%s, order %s) %s: %s" % (m, " ".join(os.path.basename(x) for x in o), bad, txt[:300]), body=txt[-3000:])
            res.states += 1; res.trans += 36 * 3; res.traces += 1; res.units += 1; res.units_total += 1
            res.counters["static link configurations executed"] = res.counters.get("static link configurations executed", 0) + 1
    shutil.rmtree(src, True)
def run(only=None):
    d = scratch(); lib = os.path.join(d, "src"); build_libs(lib, add=())
    res = Result("C17")
    exe = cc_harness(os.path.join(d, "c17"), ["c17.c", "mc.c", "spec.c"])
    oj = os.path.join(d, "o.json")
    if not only:
        symbols(res, lib, True)
        if not res.violations: static(res, d, only)
        if res.violations: return res.finish(RULE)
    rc, txt = run_harness(exe, lib, "C17", oj, only=only)
    sys.stdout.write(txt)
    if only: return rc
    if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
    res.add(json.load(open(oj)))
    for l in txt.splitlines():
        if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
    return res.finish(RULE)
