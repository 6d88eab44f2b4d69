"""Shared plumbing of the checks: builds a private copy of /repo, compiles a
harness against it, runs it, and turns its counters into evidence."""
import json, os, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
HAR = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
MARCH = "x86-64-v3"
_t0 = time.time()

class CheckError(Exception):
    pass

def scratch():
    base = "/tmp" if os.access("/tmp", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="mck-", dir=base)
    atexit.register(shutil.rmtree, d, True)
    return d

_SKIP = {".git", "_build"}
def copy_repo(dst):
    """Source files of the working tree only (no build products)."""
    for sub in ("ref", "avx2"):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            rel = os.path.relpath(root, REPO)
            dirs[:] = [d for d in dirs if d not in _SKIP and not (rel == "ref" and d == "lib")]
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in files:
                p = os.path.join(root, f)
                if f.endswith((".so", ".o", ".a", ".req", ".rsp")): continue
                if not os.path.islink(p) and os.access(p, os.X_OK) and "." not in f and f != "Makefile": continue
                q = os.path.join(dst, rel, f)
                if os.path.islink(p): os.symlink(os.readlink(p), q)
                else: shutil.copy2(p, q)
    for f in ("SHA256SUMS", "runtests.sh"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): shutil.copy2(p, dst)

def copy_repo_to(dst):
    os.makedirs(dst, exist_ok=True); copy_repo(dst)

def wrapper(dst, cc="/usr/bin/gcc", drop=(), add=()):
    """A compiler wrapper that pins the architecture (as /opt/vp/build.sh does)."""
    p = os.path.join(dst, "cc-%s" % os.urandom(4).hex())
    drop = " ".join("'%s'" % d for d in drop)
    add = " ".join("'%s'" % a for a in add)
    with open(p, "w") as f:
        f.write("""#!/bin/bash
drop=(%s)
args=()
for a in "$@"; do
  case "$a" in -march=native) a=-march=%s;; -mtune=native) a=-mtune=generic;; esac
  for d in "${drop[@]}"; do [ "$a" = "$d" ] && continue 2; done
  args+=("$a")
done
exec %s "${args[@]}" %s
""" % (drop, MARCH, cc, add))
    os.chmod(p, 0o755)
    return p

def make(src, sub, targets, cc, jobs=8, env=None, timeout=600):
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "NISTFLAGS", "LDFLAGS", "MAKEFLAGS")}
    e["LC_ALL"] = "C"
    if env: e.update(env)
    r = subprocess.run(["make", "-s", "-j%d" % jobs, "-C", os.path.join(src, sub), "CC=" + cc] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    if r.returncode:
        raise CheckError("build of %s failed:\n%s" % (sub, r.stdout[-3000:]))
    return r.stdout

def build_libs(dst, cc="/usr/bin/gcc", drop=(), add=("-Wl,-z,now", "-Wl,-z,relro"), which=("ref", "avx2"), jobs=8, copy=True):
    """Shared libraries of the current tree, through the project's Makefiles."""
    os.makedirs(dst, exist_ok=True)
    if copy: copy_repo(dst)
    w = wrapper(dst, cc, drop, add)
    ps = []
    import threading
    errs = []
    def go(s):
        try: make(dst, s, ["shared"], w, jobs)
        except Exception as ex: errs.append(ex)
    for s in which:
        t = threading.Thread(target=go, args=(s,)); t.start(); ps.append(t)
    probe_internals(dst)
    for t in ps: t.join()
    if errs: raise errs[0]
    return dst

# Prototypes of the internal functions the harnesses call directly.  A tree may
# rename them, make them static or change their parameters; those whose
# declaration no longer matches are treated like functions that do not exist,
# and what they do is judged through the public API only.
SIGS = {
 "poly_reduce": ["void(poly*)"], "poly_tomont": ["void(poly*)"], "poly_ntt": ["void(poly*)"], "poly_invntt_tomont": ["void(poly*)"],
 "poly_basemul_montgomery": ["void(poly*,const poly*,const poly*)"], "poly_add": ["void(poly*,const poly*,const poly*)"], "poly_sub": ["void(poly*,const poly*,const poly*)"],
 "polyvec_basemul_acc_montgomery": ["void(poly*,const polyvec*,const polyvec*)"], "polyvec_ntt": ["void(polyvec*)"], "polyvec_invntt_tomont": ["void(polyvec*)"], "polyvec_reduce": ["void(polyvec*)"],
 "poly_frombytes": ["void(poly*,const uint8_t*)"], "poly_tobytes": ["void(uint8_t*,const poly*)", "void(uint8_t*,poly*)"], "polyvec_tobytes": ["void(uint8_t*,const polyvec*)", "void(uint8_t*,polyvec*)"],
 "poly_compress": ["void(uint8_t*,const poly*)", "void(uint8_t*,poly*)"], "poly_decompress": ["void(poly*,const uint8_t*)"], "poly_frommsg": ["void(poly*,const uint8_t*)"], "poly_tomsg": ["void(uint8_t*,const poly*)", "void(uint8_t*,poly*)"],
 "polyvec_compress": ["void(uint8_t*,const polyvec*)", "void(uint8_t*,polyvec*)"], "polyvec_decompress": ["void(polyvec*,const uint8_t*)"],
 "barrett_reduce": ["int16_t(int16_t)"], "montgomery_reduce": ["int16_t(int32_t)"],
 "poly_cbd_eta1": ["void(poly*,const uint8_t*)", "void(poly*,const __m256i*)"], "poly_cbd_eta2": ["void(poly*,const uint8_t*)", "void(poly*,const __m256i*)"],
 "poly_getnoise_eta1": ["void(poly*,const uint8_t*,uint8_t)"], "poly_getnoise_eta2": ["void(poly*,const uint8_t*,uint8_t)"],
 "poly_getnoise_eta1_4x": ["void(poly*,poly*,poly*,poly*,const uint8_t*,uint8_t,uint8_t,uint8_t,uint8_t)"], "poly_getnoise_eta1122_4x": ["void(poly*,poly*,poly*,poly*,const uint8_t*,uint8_t,uint8_t,uint8_t,uint8_t)"], "poly_getnoise_eta2_4x": ["void(poly*,poly*,poly*,poly*,const uint8_t*,uint8_t,uint8_t,uint8_t,uint8_t)"],
 "indcpa_keypair_derand": ["void(uint8_t*,uint8_t*,const uint8_t*)"], "indcpa_enc": ["void(uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*)"], "indcpa_dec": ["void(uint8_t*,const uint8_t*,const uint8_t*)"],
 "gen_matrix": ["void(polyvec*,const uint8_t*,int)"], "verify": ["int(const uint8_t*,const uint8_t*,size_t)"], "cmov": ["void(uint8_t*,const uint8_t*,size_t,uint8_t)"], "cmov_int16": ["void(int16_t*,int16_t,uint16_t)"],
}
XSIGS = {
 "KeccakP1600times4_InitializeAll": ["void(void*)"], "KeccakP1600times4_PermuteAll_12rounds": ["void(void*)"], "KeccakP1600times4_PermuteAll_24rounds": ["void(void*)"],
 "KeccakP1600times4_AddBytes": ["void(void*,unsigned,const unsigned char*,unsigned,unsigned)"], "KeccakP1600times4_OverwriteBytes": ["void(void*,unsigned,const unsigned char*,unsigned,unsigned)"],
 "KeccakP1600times4_OverwriteWithZeroes": ["void(void*,unsigned,unsigned)"], "KeccakP1600times4_ExtractBytes": ["void(const void*,unsigned,unsigned char*,unsigned,unsigned)"], "KeccakP1600times4_ExtractAndAddBytes": ["void(const void*,unsigned,const unsigned char*,unsigned char*,unsigned,unsigned)"],
 "KeccakP1600times4_AddLanesAll": ["void(void*,const unsigned char*,unsigned,unsigned)"], "KeccakP1600times4_OverwriteLanesAll": ["void(void*,const unsigned char*,unsigned,unsigned)"], "KeccakP1600times4_ExtractLanesAll": ["void(const void*,unsigned char*,unsigned,unsigned)"], "KeccakP1600times4_ExtractAndAddLanesAll": ["void(const void*,const unsigned char*,unsigned char*,unsigned,unsigned)"],
 "KeccakF1600times4_FastLoop_Absorb": ["size_t(void*,unsigned,unsigned,unsigned,const unsigned char*,size_t)"], "KeccakP1600times4_12rounds_FastLoop_Absorb": ["size_t(void*,unsigned,unsigned,unsigned,const unsigned char*,size_t)"],
}
def probe_internals(dst):
    import threading
    ok = []
    def go(impl, K):
        src = os.path.join(dst, impl)
        sigs = XSIGS if K == 0 else SIGS
        hdr = ["stdint.h", "stddef.h", "immintrin.h"]
        own = ["keccak4x/KeccakP-1600-times4-SnP.h"] if K == 0 else ["params.h", "poly.h", "polyvec.h", "reduce.h", "ntt.h", "cbd.h", "verify.h", "indcpa.h", "rejsample.h", "symmetric.h"]
        lines = ["#include <%s>" % h for h in hdr]
        for h in own: lines += ["#if __has_include(\"%s\")" % h, "#include \"%s\"" % h, "#endif"]
        if K: lines.append("typedef char layout_[sizeof(poly)==512&&sizeof(polyvec)==512*%d?1:-1];" % K)
        layout = len(lines); at = {}
        for n, alts in sigs.items():
            lines.append("_Static_assert(%s,\"\");" % "||".join("__builtin_types_compatible_p(__typeof__(%s),%s)" % (n, a) for a in alts)); at[len(lines)] = n
        p = os.path.join(dst, "probe-%s-%d.c" % (impl, K))
        with open(p, "w") as f: f.write("\n".join(lines) + "\n")
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-fmax-errors=0", "-march=" + MARCH, "-DKYBER_K=%d" % (K or 3), "-I" + src, p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=dict(os.environ, LC_ALL="C"))
        bad = set(); whole = False
        import re
        for m in re.finditer(r"^([^\s:]+):(\d+):\d+: (?:fatal )?error", r.stderr, re.M):
            if m.group(1) == p and int(m.group(2)) in at: bad.add(at[int(m.group(2))])
            else: whole = True
        if r.returncode and not bad: whole = True
        for n in sigs:
            if not whole and n not in bad: ok.append("%s %d %s" % (impl, K, n))
    ts = [threading.Thread(target=go, args=a) for a in [("ref", 2), ("ref", 3), ("ref", 4), ("avx2", 2), ("avx2", 3), ("avx2", 4), ("avx2", 0)] if os.path.isdir(os.path.join(dst, a[0]))]
    for t in ts: t.start()
    # sizes of the hash states a caller allocates
    for i, (impl, h, ty, fb) in enumerate([("ref", "fips202.h", "keccak_state", 208), ("avx2", "fips202.h", "keccak_state", 208), ("avx2", "fips202x4.h", "keccakx4_state", 800)]):
        n = fb; p = os.path.join(dst, "size-%d" % i)
        with open(p + ".c", "w") as f: f.write("#include <immintrin.h>\n#include <stdio.h>\n#include \"%s\"\nint main(void){ printf(\"%%zu\",sizeof(%s)); return 0; }\n" % (h, ty))
        try:
            if subprocess.run(["gcc", "-w", "-march=" + MARCH, "-I" + os.path.join(dst, impl), p + ".c", "-o", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                n = int(subprocess.run([p], stdout=subprocess.PIPE, text=True).stdout)
        except (OSError, ValueError): pass
        ok.append("size %d %d" % (i, n))
    for t in ts: t.join()
    with open(os.path.join(dst, "internals.txt"), "w") as f: f.write("\n".join(sorted(ok)) + "\n")
    return ok

def cc_harness(out, srcs, cc="gcc", flags=(), libs=("-ldl",), inc=()):
    cmd = [cc, "-O3", "-march=" + MARCH, "-g1", "-w", "-rdynamic", "-I" + HAR] + ["-I" + i for i in inc] + list(flags)
    objs = []
    d = os.path.dirname(out)
    ps = []
    for s in srcs:
        p = s if os.path.isabs(s) else os.path.join(HAR, s)
        o = os.path.join(d, os.path.basename(out) + "-" + os.path.basename(p) + ".o")
        objs.append(o)
        ps.append((p, subprocess.Popen(cmd + ["-c", p, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for p, pr in ps:
        txt, _ = pr.communicate()
        if pr.returncode: raise CheckError("harness %s does not compile:\n%s" % (p, txt[-3000:]))
    r = subprocess.run([cc, "-rdynamic"] + list(flags) + objs + ["-o", out, "-lpthread"] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise CheckError("harness link failed:\n%s" % r.stdout[-3000:])
    return out

def run_harness(exe, lib, prop, outjson, arg=None, only=None, jobs=8, timeout=None, env=None, pre=()):
    os.makedirs(REPLAYS, exist_ok=True)
    cmd = list(pre) + [exe, "--lib", lib, "--out", outjson, "--replaydir", REPLAYS, "--jobs", str(jobs)]
    if arg is not None: cmd += ["--arg", arg]
    if only: cmd += ["--only", only]
    e = dict(os.environ); e["VERIF_TIER"] = TIER; e["VERIF_SEED"] = str(SEED)
    if env: e.update(env)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout

class Result:
    """Accumulates coverage over one or more harness runs."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.states = self.trans = self.traces = self.units = self.units_total = 0
        self.counters, self.notes, self.samples, self.groups = {}, [], [], {}
        self.violations = []        # (text, replay path)
        self.findings = {}
        self.known = load_known(prop)
        self.extra = {}
        self.assumptions = []
        self.setfull = False
    def add(self, js):
        self.states += js["states"]; self.trans += js["transitions"]; self.traces += js["traces"]
        self.units += js["units"]; self.units_total += js["units_total"]
        self.setfull |= bool(js.get("setfull"))
        for k, v in js["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
        for n in js["notes"]:
            if n not in self.notes: self.notes.append(n)
        self.samples += js["samples"]
        if js.get("slow_ms", 0) > self.extra.get("slowest_unit_ms", -1): self.extra["slowest_unit_ms"] = js["slow_ms"]; self.extra["slowest_unit"] = js["slow_unit"]
        self.groups.update(js["groups"])
        self.findings.update(js.get("findings", {}))
    def violation(self, text, replay=None, body=None):
        os.makedirs(REPLAYS, exist_ok=True)
        if replay is None:
            replay = os.path.join(REPLAYS, "%s-%d.txt" % (self.prop, len(self.violations)))
            with open(replay, "w") as f:
                f.write("property: %s\nreplay: python3 check.py %s   (in /verif)\nwhat: %s\n%s\n" % (self.prop, self.prop, text, body or ""))
        self.violations.append((text, replay))
        print("FAIL %s" % text[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, replay), flush=True)
    def finish(self, exhaustive_note=None):
        for k, v in sorted(self.findings.items()):
            if k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, v))
            else: self.violation("%s: %s" % (k, v))
        if not self.samples: self.samples = ["(no sample recorded)"]
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
               "units_explored": self.units, "units_total": self.units_total,
               "groups": self.groups, "counters": self.counters, "notes": self.notes}
        if self.units == self.units_total and not self.setfull and not self.violations:
            cov["exhaustive"] = True
        if self.setfull: cov["notes"] = self.notes + ["distinct-state table filled up: states is a lower bound"]
        if exhaustive_note: cov["rule"] = exhaustive_note
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - _t0, 2),
              "violations": len(self.violations)}
        if self.assumptions: ev["assumptions"] = self.assumptions
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %s; states=%d transitions=%d traces=%d units=%d/%d wall=%.1fs" % (
            self.prop, "VIOLATED" if self.violations else "held", self.states, self.trans, self.traces,
            self.units, self.units_total, time.time() - _t0))
        return 1 if self.violations else 0

def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(None, 2)[2]
                out[rest.split(None, 1)[0]] = rest
    return out

def standard(prop, srcs, rule, args=(None,), flags=(), libs=("-ldl",), only=None, assumptions=(), build=None, timeout=None):
    """Build libraries, build one harness, run it once per arg."""
    d = scratch()
    lib = os.path.join(d, "src")
    (build or build_libs)(lib)
    exe = cc_harness(os.path.join(d, prop.lower()), srcs, flags=flags, libs=libs)
    res = Result(prop)
    res.assumptions = list(assumptions)
    for i, a in enumerate(args):
        oj = os.path.join(d, "out%d.json" % i)
        rc, txt = run_harness(exe, lib, prop, oj, arg=a, only=only, timeout=timeout)
        sys.stdout.write(txt)
        if only: return rc
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
        if res.violations: break
    return res.finish(rule)
