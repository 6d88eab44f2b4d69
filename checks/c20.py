from vlib import *
RULE = ("DRBG: every bit of entropy and personalisation, request lengths 0..799 (thorough 4095), every carry position x distance before the wrap x request length, all request sequences over 10 boundary lengths to depth 4 (5), "
        "request lengths around 2^8..2^20, 70000 requests after one seeding, one request past 2^31 bytes; 140000 requests of one seed expander; seed expander: every seed/diversifier bit, (chunk, chunk) pairs to 100x100, all chunk sequences over 8 lengths to depth 5 (6), all (limit, drawn, request) triples for limits to 69, all counter carries; "
        "KAT program: all 100 vectors of the three programs against the model, the same under address and undefined-behaviour sanitizers, every crypto call failing or returning a wrong secret, every file open failing, all small files over an alphabet through its readers")
def run(only=None):
    d = scratch(); lib = os.path.join(d, "src"); copy_repo_to(lib)
    w = wrapper(d)
    make(lib, "ref", ["nistkat"], w)
    nk = os.path.join(lib, "ref", "nistkat")
    san = os.path.join(d, "san-src"); copy_repo_to(san)
    make(san, "ref", ["nistkat"], wrapper(san, add=("-w", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")))
    os.symlink(os.path.join(san, "ref"), os.path.join(d, "san"))
    def sh(*a):
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError("build step failed: %s\n%s" % (" ".join(a), r.stdout[-2000:]))
    for o in ("-O3", "-O0"):
        sh("gcc", o, *(["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"] if o == "-O0" else []), "-w", "-fPIC", "-fno-semantic-interposition", "-Wl,-Bsymbolic", "-shared", os.path.join(nk, "rng.c"), "-o", os.path.join(d, "librng%s.so" % o), "-lcrypto")
    sh("gcc", "-O0", "-w", "-fPIC", "-shared", os.path.join(nk, "rng.c"), "-o", os.path.join(d, "librng-preempt.so"), "-lcrypto")
    for K in (2, 3, 4):
        sh("gcc", "-O1", "-w", "-fPIC", "-shared", "-DKYBER_K=%d" % K, "-Dmain=kat_main", "-Dfopen=kat_fopen", os.path.join(nk, "PQCgenKAT_kem.c"), "-o", os.path.join(d, "libkat%d.so" % K))
    flags = []
    for n, t in (("NO_DRBG_FIELDS", "sizeof(((AES256_CTR_DRBG_struct*)0)->Key)==32&&sizeof(((AES256_CTR_DRBG_struct*)0)->V)==16"), ("NO_XOF_FIELDS", "sizeof(((AES_XOF_struct*)0)->ctr)==16")):
        f = os.path.join(d, n + ".c")
        with open(f, "w") as h: h.write("#include <stddef.h>\n#include \"rng.h\"\n_Static_assert(%s,\"\");\n" % t)
        if subprocess.run(["gcc", "-fsyntax-only", "-w", "-I" + nk, f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: flags.append("-D" + n)
    exe = cc_harness(os.path.join(d, "c20"), ["c20.c", "mc.c", "spec.c"], inc=(nk,), flags=flags)
    oj = os.path.join(d, "o.json"); res = Result("C20")
    rc, txt = run_harness(exe, lib, "C20", oj, arg=d, only=only)
    sys.stdout.write(txt)
    if only: return rc
    if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
    res.add(json.load(open(oj)))
    for l in txt.splitlines():
        if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
    return res.finish(RULE)
