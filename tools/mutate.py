#!/usr/bin/env python3
"""mutate.py FILE... [--max N] [--jobs J] [--out DIR]: systematic single-edit mutants of source files of /repo (scratch copies only).
Mutants whose object code is unchanged are dropped; those the test programs do not notice are written to DIR as patches
(survivors).  'mutate.py --judge DIR CHECK...' runs checks on every survivor and reports those that stay quiet.
A development aid: no registered check uses it."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
def sh(c, cwd=None, t=120):
    try: r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, executable="/bin/bash"); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, b""
SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("++", "--"), ("+=", "-="), ("-=", "+="), ("|=", "^="), ("^=", "|="), ("|=", "="), (">>", "<<"), ("<<", ">>")]
WORD = [("size_t", "unsigned int"), ("uint64_t", "uint32_t"), ("uint32_t", "uint16_t"), ("uint16_t", "uint8_t"), ("int32_t", "int16_t"), ("unsigned int", "uint8_t"), ("unsigned int", "int"), ("unsigned long long", "unsigned int"), ("ssize_t", "int"), ("continue", "break"), ("break", ";"), ("__m256i", "__m256i"), ("loadu", "load"), ("storeu", "store"), ("srai", "srli"), ("cmpgt_epi16", "cmpeq_epi16"), ("mulhrs_epi16", "mulhi_epi16"), ("add_epi16", "adds_epi16"), ("packs", "packus")]
ASM = [("vpaddw", "vpsubw"), ("vpsubw", "vpaddw"), ("vpsraw", "vpsrlw"), ("vpmulhrsw", "vpmulhw"), ("vpmulhw", "vpmulhuw"), ("vmovdqu", "vmovdqa"), ("vpermq", "vpermq")]
def asm_sites(src):
    out = []; pos = 0
    for ln in src.split("\n"):
        base = pos; pos += len(ln) + 1; s = ln.split("#")[0].rstrip()
        if not s.strip() or s.lstrip().startswith((".", "/*", "cdecl", "ret", "global")) or s.rstrip().endswith(":"): continue
        out.append((base, base + len(s), "", "delete '%s'" % s.strip()))
        for o, n in ASM:
            if s.lstrip().startswith(o) and o != n: a = s.index(o); out.append((base + a, base + a + len(o), n, o + "->" + n))
        for m in re.finditer(r"\$(0x[0-9A-Fa-f]+|\d+)", s): out.append((base + m.start(1), base + m.end(1), str(int(m.group(1), 0) + 1), "imm+1"))
    return out
def sites(src):
    out = []; code = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), src, flags=re.S)
    pos = 0
    for ln in code.split("\n"):
        s = ln.strip(); base = pos; pos += len(ln) + 1
        if not s or s.startswith("#") or s.startswith("extern") or re.match(r"^[\w\s\*]+\([^;]*\)?,?$", s) and not s.endswith(";"): 
            if not re.match(r"^(while|for|if|else)", s): continue
        if re.fullmatch(r"[-\s0-9a-fxA-FULul,{}()]+;?", s): continue   # tables
        def put(a, b, new, what): out.append((base + a, base + b, new, what))
        for o, n in SWAP:
            for m in re.finditer(re.escape(o), ln):
                a, b = m.span()
                if o in ("<=", ">=") and ln[a-1] in "<>": continue
                put(a, b, n, "%s->%s" % (o, n))
        for m in re.finditer(r"(?<![<>=!+\-|&^*/%])([<>+\-&|^*])(?![<>=+\-|&])", ln):
            c = m.group(1); a, b = m.span(1)
            n = {"<": ["<=", ">"], ">": [">="], "+": ["-"], "-": ["+"], "&": ["|"], "|": ["&"], "^": ["|"], "*": []}[c]
            if c in "<>" and ln[a:a+1] == ">" and ln[a-1:a] == "-": continue
            for x in n: put(a, b, x, "%s->%s" % (c, x))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(ULL|LL|UL|U|L)?\b", ln):
            v = int(m.group(1), 0)
            for x in {v + 1, v - 1, 0} - {v}:
                if x >= 0 or v == 0: put(m.start(1), m.end(1), str(x), "%s->%d" % (m.group(1), x))
        for o, n in WORD:
            for m in re.finditer(r"\b%s\b" % re.escape(o) if not o.startswith(("load", "store", "srai", "cmp", "mul", "add_", "packs")) else re.escape(o), ln):
                if o != n: put(m.start(), m.end(), n, "%s->%s" % (o, n))
        if s.endswith(";") and not re.match(r"^(static |const |unsigned |int |uint|u?int\d|size_t|ssize_t|__m|struct|return;|poly|keccak|xof|ALIGNED|typedef)", s): put(len(ln) - len(ln.lstrip()), len(ln.rstrip()), ";", "delete '%s'" % s[:50])
    return out
AVX = "-mavx2 -mbmi2 -mpopcnt -march=x86-64-v3"
def objs(f, root):
    h = []
    d = f.split("/")[0]
    if f.endswith(".inc"): return open(os.path.join(root, f)).read()
    for K in ((2, 3, 4) if "nistkat" not in f else (3,)):
        r, o = sh("gcc -w -O3 %s -fomit-frame-pointer -DKYBER_K=%d -I%s -S -o - %s" % (AVX if d == "avx2" else "", K, d, f), root)
        if r: return None
        h.append(hashlib.sha256(o).digest())
    return h
FL = {"ref": "-O3 -fomit-frame-pointer", "avx2": AVX + " -O3 -fomit-frame-pointer"}
SRC = {"ref": "kem indcpa polyvec poly ntt cbd reduce verify fips202 symmetric-shake randombytes".split(),
       "avx2": "kem indcpa polyvec poly fq.S shuffle.S ntt.S invntt.S basemul.S consts rejsample cbd verify fips202 fips202x4 symmetric-shake randombytes keccak4x/KeccakP-1600-times4-SIMD256".split()}
BASE = {}
def obj(root, d, K, n, out): return sh("gcc -w %s -DKYBER_K=%d -I%s/%s -c %s/%s/%s -o %s" % (FL[d], K, root, d, root, d, n if n.endswith(".S") else n + ".c", out))[0]
def prepare(D):
    jobs = []
    for d in SRC:
        for K in (2, 3, 4):
            for n in SRC[d] + ["test/test_vectors", "test/test_kyber"]:
                o = "%s/%s-%d-%s.o" % (D, d, K, n.replace("/", "_")); BASE[d, K, n] = o; jobs.append((REPO, d, K, n, o))
    with ThreadPoolExecutor(8) as ex: assert not any(ex.map(lambda a: obj(*a), jobs))
def survives(f, W):
    d = f.split("/")[0]; name = f.split("/", 1)[1]; n = name[:-2] if name.endswith(".c") else name
    if "nistkat" not in f:
        for dd in [d] + (["avx2"] if d == "ref" and os.path.islink(os.path.join(REPO, "avx2", name)) else []):
            ch = [x for x in SRC[dd] if x.endswith(".S")] if n.endswith(".inc") else [n]
            for K in (3, 2, 4):
                os_ = dict((x, BASE[dd, K, x]) for x in SRC[dd]); N = 256*K
                for x in ch:
                    o = os.path.join(W, "m-%s.o" % x.replace("/", "_"))
                    if obj(W, dd, K, x, o): return False
                    os_[x] = o
                for t in ("test_vectors", "test_kyber"):
                    if sh("gcc -w %s %s -o %s/t" % (" ".join(v for x, v in os_.items() if not (t == "test_vectors" and x == "randombytes")), BASE[dd, K, "test/" + t], W))[0]: return False
                    if t == "test_vectors":
                        r, o = sh("set -o pipefail; timeout 60 %s/t | sha256sum" % W)
                        want = re.search(r"^([0-9a-f]{64})  tvecs%d$" % N, open(REPO + "/SHA256SUMS").read(), re.M).group(1)
                        if not o.decode().startswith(want): return False
                    elif sh("timeout 60 %s/t" % W)[0]: return False
    if d == "ref":
        for N in (512,768,1024):
            r, o = sh("make -s -C ref CC=%s/cc nistkat/PQCgenKAT_kem%d && cd %s && timeout 60 ./ref/nistkat/PQCgenKAT_kem%d" % (W, N, W, N), W, 120)
            if r: return False
    return True
def main():
    a = sys.argv[1:]
    if a[0] == "--judge": return judge(a[1], a[2:])
    mx, jobs, out = 10**9, 8, "/tmp/mutat"; files = []
    i = 0
    while i < len(a):
        if a[i] == "--max": mx = int(a[i+1]); i += 2
        elif a[i] == "--jobs": jobs = int(a[i+1]); i += 2
        elif a[i] == "--out": out = a[i+1]; i += 2
        else: files.append(a[i]); i += 1
    os.makedirs(out, exist_ok=True)
    bd = tempfile.mkdtemp(prefix="mutb-"); prepare(bd); dirs = []
    for j in range(jobs):
        W = tempfile.mkdtemp(prefix="mut-"); sh("git -C %s archive HEAD | tar -x -C %s" % (REPO, W)); dirs.append(W)
        with open(W + "/cc", "w") as h: h.write('#!/bin/bash\na=()\nfor x in "$@"; do [ "$x" = -march=native ] && x=-march=x86-64-v3; [ "$x" = -mtune=native ] && continue; a+=("$x"); done\nexec gcc -w "${a[@]}"\n')
        os.chmod(W + "/cc", 0o755); sh("git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", W)
    free = list(dirs); import threading; lk = threading.Lock()
    try:
        for f in files:
            src = open(os.path.join(REPO, f)).read(); base = objs(f, dirs[0]); S = (asm_sites if f.endswith((".S", ".inc")) else sites)(src)
            if len(S) > mx: st = len(S) / mx; S = [S[int(k*st)] for k in range(mx)]
            cnt = {"same": 0, "nobuild": 0, "killed": 0, "alive": 0}
            def one(k):
                p, q, new, what = S[k]
                with lk: W = free.pop()
                try:
                    open(os.path.join(W, f), "w").write(src[:p] + new + src[q:])
                    h = objs(f, W)
                    if h is None: return "nobuild"
                    if h == base: return "same"
                    if not survives(f, W): return "killed"
                    r, o = sh("git diff -- ref avx2", W)
                    line = src[:p].count("\n") + 1
                    with open(os.path.join(out, "%s-%d-%d.diff" % (f.replace("/", "_"), line, k)), "wb") as g: g.write(o)
                    return "alive"
                finally:
                    sh("git checkout -q -- . && git clean -fdxq -e cc", W)
                    with lk: free.append(W)
            with ThreadPoolExecutor(jobs) as ex:
                for r in ex.map(one, range(len(S))): cnt[r] += 1
            print(f, len(S), cnt, flush=True)
    finally:
        for W in dirs + [bd]: shutil.rmtree(W)
def judge(D, checks):
    for n in sorted(os.listdir(D)):
        if not n.endswith(".diff") or os.path.exists(os.path.join(D, n + ".res")): continue
        W = tempfile.mkdtemp(prefix="jud-"); sh("git -C %s archive HEAD | tar -x -C %s; cd %s && git apply %s" % (REPO, W, W, os.path.join(D, n))); res = "QUIET"
        ch = [l for l in open(os.path.join(D, n)).read().splitlines() if re.match(r"^[-+][^-+]", l)]
        for c in checks:
            r, o = sh("VERIF_REPO=%s python3 %s/check.py %s" % (W, V, c), t=1500)
            if r: res = "%s rc=%d" % (c, r); break
        shutil.rmtree(W)
        open(os.path.join(D, n + ".res"), "w").write(res + "\n")
        print("%s %s   %s" % (n, res, " / ".join(x.strip() for x in ch)[:200] if res == "QUIET" or not res.endswith("rc=1") else ""), flush=True)
main()
