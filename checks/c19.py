import itertools, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
RULE = ("build configurations enumerated: compiler x optimisation level x code-generation and language-standard flags x source switches (the BMI sampling path, no explicit parameter set); "
        "each configuration is built through the project's Makefiles and explored against the specification (real coins, extreme key/ciphertext patterns, chosen noise and matrix values, acceptance patterns of the sampler, hash lengths; all coefficient values through the codecs, extremal inputs of the arithmetic); "
        "quick: 21 configurations, thorough: the product of compilers, levels and flags")
G, L = "/usr/bin/gcc", "/usr/bin/clang"
def configs():
    # name, compiler, added flags, dropped flags, unrolling, full exploration
    Q = [("gcc -O0", G, ("-O0",)), ("gcc -O1 -funsigned-char -fno-builtin", G, ("-O1", "-funsigned-char", "-fno-builtin")), ("gcc -O2 -std=c99", G, ("-O2", "-std=c99")),
         ("gcc -Os -fwrapv", G, ("-Os", "-fwrapv")), ("gcc -O3 -funsigned-char -flto", G, ("-funsigned-char", "-flto", "-fno-fat-lto-objects")),
         ("clang -O0 -std=c11", L, ("-O0", "-std=c11")), ("clang -O3 -funsigned-char", L, ("-funsigned-char",)), ("clang -Oz", L, ("-Oz",))]
    C = [("gcc -O3 -DBMI", G, ("-DBMI",), (), True)]
    C += [(n, c, f, (), False) for n, c, f in Q]
    C += [("gcc -O3, no explicit parameter set for 768", G, (), ("-DKYBER_K=3",), False), ("clang -O2 -DBMI", L, ("-O2", "-DBMI"), (), False)]
    Q2 = [("gcc -O2 -march=x86-64-v3 -DNDEBUG", G, ("-O2", "-march=x86-64-v3", "-DNDEBUG")), ("gcc -O3 -march=native", G, ("-march=native", "-mtune=native")), ("gcc -Og -std=c2x -fstack-protector-all", G, ("-Og", "-std=c2x", "-fstack-protector-all")),
          ("gcc -Ofast -funroll-all-loops -march=x86-64-v3", G, ("-Ofast", "-funroll-all-loops", "-march=x86-64-v3")), ("gcc -O3 -fno-inline -fno-tree-vectorize -ffreestanding", G, ("-fno-inline", "-fno-tree-vectorize", "-ffreestanding")),
          ("gcc -O2 -fno-strict-aliasing -fshort-enums -D_FORTIFY_SOURCE=2", G, ("-O2", "-fno-strict-aliasing", "-fshort-enums", "-D_FORTIFY_SOURCE=2")),
          ("clang -O1 -march=x86-64-v3 -DNDEBUG", L, ("-O1", "-march=x86-64-v3", "-DNDEBUG")), ("clang -O2 -march=native", L, ("-O2", "-march=native")), ("clang -Os -std=c2x -fsigned-char", L, ("-Os", "-std=c2x", "-fsigned-char"))]
    C += [(n, c, f, (), False) for n, c, f in Q2]
    C.append(("gcc -O2, portable sources without GNU extensions (-U__GNUC__)", G, ("-O2",), (), False, ("-U__GNUC__",)))
    if THOROUGH:
        opt = ("-O0", "-O1", "-O2", "-O3", "-Os", "-Og"); ex = ((), ("-funsigned-char",), ("-fsigned-char", "-std=c99"), ("-std=c2x",), ("-DNDEBUG", "-D_FORTIFY_SOURCE=2"), ("-fwrapv", "-fno-strict-aliasing"),
              ("-fno-inline",), ("-funroll-all-loops",), ("-fstack-protector-all",), ("-march=x86-64-v4", "-mno-avx512f"), ("-DBMI", "-flto"), ("-fno-tree-vectorize", "-fno-builtin"), ("-fshort-enums",), ("-mtune=znver3",), ("-fPIE",), ("-fno-omit-frame-pointer", "-pg") )
        for c, o, e in itertools.product((G, L), opt, ex):
            if c == L and "-flto" in e: e = ("-DBMI",)
            if c == L: e = tuple(x.replace("-funroll-all-loops", "-funroll-loops").replace("-fno-tree-vectorize", "-fno-vectorize") for x in e)
            if "-pg" in e or "-fPIE" in e: continue
            n = "%s %s %s" % (os.path.basename(c), o, " ".join(e))
            C.append((n, c, (o,) + e, (), False))
    return C
def run(only=None):
    d = scratch(); res = Result("C19")
    exe = cc_harness(os.path.join(d, "c19"), ["c19.c", "mc.c", "spec.c", "libs.c", "oracle.c"])
    exes = [("", exe)] + [(g, cc_harness(os.path.join(d, "c19" + g), [f, "mc.c", "spec.c", "libs.c", "oracle.c"], flags=("-DC19SMALL",))) for g, f in (("codec", "c06.c"), ("arith", "c07.c"))]
    C = configs(); seen = {}
    if only:
        only, _, want = only.partition("@"); C = [c for c in C if c[0] == want] if want else C[:1]
    def one(ic):
        i, (name, cc, add, drop, full, *refadd) = ic
        if res.violations: return None
        src = os.path.join(d, "b%d" % i)
        try:
            copy_repo_to(src)
            if refadd:
                build_libs(src, cc=cc, add=tuple(add) + refadd[0] + ("-w",), drop=tuple(drop), copy=False, jobs=2, which=("ref",))
                build_libs(src, cc=cc, add=tuple(add) + ("-w",), drop=tuple(drop), copy=False, jobs=2, which=("avx2",))
            else: build_libs(src, cc=cc, add=tuple(add) + ("-w",), drop=tuple(drop), copy=False, jobs=2)
        except CheckError as e:
            shutil.rmtree(src, True); return (name, "build", None, str(e))
        ojs = []
        for g, x in exes:
            if only and (re.match("codec-|arith-", only) or [""])[0].rstrip("-") != g: continue
            oj = os.path.join(d, "o%d%s.json" % (i, g)); ojs.append((g, oj))
            rc, txt = run_harness(x, src, "C19", oj, arg="full" if full else "small", only=only, jobs=2)
            if rc: break
        shutil.rmtree(src, True)
        return (name, rc, ojs, txt)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, enumerate(C)):
            if r is None: continue
            name, rc, oj, txt = r
            if rc == "build":
                if "-std=" in name or "-U__GNUC__" in name: res.notes.append("%s does not build; not counted" % name); continue
                if not res.violations: res.violation("configuration '%s' does not build: %s" % (name, txt[-1500:]))
                continue
            if only: sys.stdout.write("[%s] %s" % (name, txt)); return rc
            if rc == 1:
                f = [l for l in txt.splitlines() if l.startswith("FAIL ")]; v = [l for l in txt.splitlines() if l.startswith("VIOLATION ")]
                rp = v[0].split("replay=")[1] if v else None
                if rp and os.path.exists(rp):
                    s = open(rp).read(); s = re.sub(r"--only '([^']*)'", lambda m: "--only '%s@%s'" % (m.group(1), name), s); open(rp, "w").write("configuration: %s\n%s" % (name, s))
                if not res.violations: res.violation("configuration '%s': %s" % (name, f[0] if f else txt[-500:]), replay=rp)
                continue
            if rc not in (0, 2): raise CheckError("harness ended with status %s in configuration %s" % (rc, name))
            if rc == 2:
                if not res.violations: res.violation("configuration '%s' cannot be used: the harness ended with status %s %s" % (name, rc, txt[-500:]))
                continue
            for g, f in oj: js = json.load(open(f)); js["groups"] = {name + (" (%s)" % g if g else ""): js["units"]}; res.add(js)
            res.counters["build configurations explored"] = res.counters.get("build configurations explored", 0) + 1
    return res.finish(RULE)
