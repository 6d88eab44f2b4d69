import os, subprocess, sys, json
from vlib import *
SYMS = "syscall getrandom getentropy open open64 openat openat64 read close abort exit _exit CryptAcquireContext CryptGenRandom CryptReleaseContext".split()
def run(only=None):
    d = scratch(); src = os.path.join(d, "src"); os.makedirs(src); copy_repo(src)
    st = os.path.join(HAR, "stubs")
    variants = [("linux-getrandom", 0, []), ("netbsd", 1, ["-I" + os.path.join(st, "netbsd"), "-include", os.path.join(st, "netbsd", "prelude.h")]), ("dev-urandom", 2, ["-U__linux__"]),
                ("linux-no-getrandom", 2, ["-I" + os.path.join(st, "nosys")]), ("win32", 3, ["-U__linux__", "-D_WIN32", "-I" + os.path.join(st, "win")])]
    args, notes = [], []
    for impl in ("ref", "avx2"):
        s = os.path.join(src, impl, "randombytes.c")
        if impl == "avx2" and os.path.islink(s) and os.path.realpath(s) == os.path.realpath(os.path.join(src, "ref", "randombytes.c")):
            notes.append("avx2/randombytes.c is the ref file"); continue
        if not os.path.exists(s): notes.append(impl + "/randombytes.c missing"); continue
        for opt in ("-O3", "-O0"):
            for name, kind, fl in variants:
                o = os.path.join(d, "%s-%s%s.o" % (impl, name, opt)); so = o[:-2] + ".so"
                r = subprocess.run(["gcc", opt, "-w", "-fPIC", "-U_FORTIFY_SOURCE"] + fl + ["-I" + os.path.join(src, impl), "-c", s, "-o", o], capture_output=True, text=True)
                if r.returncode:
                    if kind == 0: raise CheckError("randombytes.c does not compile: " + r.stderr[-1500:])
                    notes.append("%s variant of %s/randombytes.c not compilable here: skipped" % (name, impl)); continue
                subprocess.check_call(["objcopy"] + ["--redefine-sym=%s=%s" % (x, "mk_" + x) for x in SYMS] + [o])
                subprocess.check_call(["gcc", "-shared", "-Wl,-z,now", o, "-o", so])
                args.append("%s%s:%d:%s" % (name if impl == "ref" else impl + "-" + name, opt, kind, so))
    exe = cc_harness(os.path.join(d, "c05"), ["c05.c", "mc.c", "snap.c"])
    res = Result("C05"); res.notes += notes
    oj = os.path.join(d, "o.json")
    rc, txt = run_harness(exe, src, "C05", oj, arg=",".join(args), only=only); sys.stdout.write(txt)
    if only: return rc
    if rc not in (0, 1): raise CheckError("harness status %d" % rc)
    res.add(json.load(open(oj)))
    res.violations += [(l, "") for l in txt.splitlines() if l.startswith("VIOLATION ")]
    res.extra["variants"] = [a.split(":")[0] for a in args]
    res.extra["deviation_bound"] = "up to %d departures from the full answer per request sequence (6+ for requests of at most 4 bytes); all short counts enumerated for requests up to 300 bytes" % (4 if THOROUGH else 3)
    res.assumptions = ["Win32 is compiled against stub headers; the answers of CryptGenRandom are all-or-nothing as documented"]
    return res.finish("stateless depth-first enumeration of operating-system answers (full, every short count, interruption with and without a scribbled buffer, zero, five permanent errors, open failures) around the real randombytes.c")
