from vlib import *
RULE = ("every API call and every hash function with exact-size buffers ending (and starting) at inaccessible pages and write-protected inputs: "
        "12 contents x 8 oracle behaviours (including heavy rejection) x honest/malformed keys and ciphertexts, all input lengths and output lengths of the hash functions, "
        "all (position, chunk) pairs of the incremental interface, all (instance, offset, length) of the state operations; the same enumeration on exact heap blocks "
        "in AddressSanitizer+UndefinedBehaviorSanitizer builds of the libraries by gcc and clang")
SAN = "-fsanitize=address,undefined -fno-sanitize=alignment,vptr,function -fno-sanitize-recover=all -fno-omit-frame-pointer -g1"
SRC = ["c14.c", "mc.c", "spec.c", "libs.c", "oracle.c"]
def run(only=None):
    d = scratch(); res = Result("C14")
    variants = [("plain", "gcc", None), ("gcc-san", "gcc", SAN.replace(",function", "")), ("clang-san", "clang", SAN)]
    if only and "@" in only:
        only, w = only.split("@"); variants = [v for v in variants if v[0] == w]
    elif only: variants = variants[:1]
    for name, cc, san in variants:
        lib = os.path.join(d, name); ccp = "/usr/bin/" + cc
        if san is None:
            build_libs(lib); exe = cc_harness(os.path.join(d, "c14-" + name), SRC); env = None
        else:
            fl = san.split()
            build_libs(lib, cc=ccp, add=tuple(fl) + ("-w", "-fno-inline-functions"), drop=("-Werror", "-O3"))
            exe = cc_harness(os.path.join(d, "c14-" + name), SRC, cc=ccp, flags=("-DSAN", "-O1") + tuple(fl))
            env = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=0:quarantine_size_mb=4", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}
        oj = os.path.join(d, name + ".json")
        rc, txt = run_harness(exe, lib, "C14", oj, only=only, env=env)
        if san: txt = txt.replace("FAIL ", "FAIL [%s] " % name)
        sys.stdout.write(txt)
        if only: return rc
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); js["groups"] = {name + " " + k: v for k, v in js["groups"].items()}; res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "):
                if san: open(l.split("replay=")[1], "a").write("build variant: %s (append @%s to the unit name)\n" % (name, name))
                res.violations.append((l, l.split("replay=")[1]))
        if res.violations: break
    return res.finish(RULE)
