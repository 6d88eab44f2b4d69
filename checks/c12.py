from vlib import *
RULE = ("With the public seed, public key and ciphertext held fixed, every secret of the enumerated alphabets (bit/byte patterns of seeds, z and messages; every noise byte value and position; secret-key variations including "
        "accepting and rejecting ones; every single noise difference of the re-encryption; all coefficient values of the internal routines; hash message patterns) is executed and its complete event trace (instruction, load, store, division operands) "
        "compared event by event with that of a reference secret; division operands also in size-optimised and unoptimised builds")
def build_tool(d):
    t = os.path.join(d, "vg"); os.makedirs(t, exist_ok=True)
    lib = "/usr/lib/x86_64-linux-gnu/valgrind"
    def sh(*a):
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError("trace tool does not build: %s" % r.stdout[-2000:])
    o = os.path.join(t, "mct.o")
    sh("gcc", "-O2", "-g0", "-w", "-std=gnu99", "-fno-stack-protector", "-fno-strict-aliasing", "-fomit-frame-pointer", "-fno-builtin", "-fno-pie",
       "-DVGA_amd64=1", "-DVGO_linux=1", "-DVGP_amd64_linux=1", "-DVGPV_amd64_linux_vanilla=1", "-I/usr/include/valgrind", "-c", os.path.join(HAR, "mct.c"), "-o", o)
    sh("gcc", "-static", "-nodefaultlibs", "-nostartfiles", "-no-pie", "-u", "_start", "-Wl,--build-id=none", "-Wl,-Ttext-segment=0x58000000", o,
       "-L" + lib, "-lcoregrind-amd64-linux", "-lvex-amd64-linux", "-lgcc-sup-amd64-linux", "-lgcc", "-o", os.path.join(t, "mct-amd64-linux"))
    for f in os.listdir("/usr/libexec/valgrind"):
        q = os.path.join(t, f)
        if not os.path.lexists(q): os.symlink(os.path.join("/usr/libexec/valgrind", f), q)
    return t
def run(only=None):
    d = scratch(); tool = build_tool(d)
    exe = cc_harness(os.path.join(d, "c12"), ["c12.c", "mc.c", "spec.c", "libs.c", "oracle.c"], flags=("-I/usr/include",))
    res = Result("C12")
    builds = [("as built", None, (), "full")]
    builds += [("gcc -Os", "/usr/bin/gcc", ("-Os",), "div")]
    if THOROUGH: builds += [("gcc -O0", "/usr/bin/gcc", ("-O0",), "div"), ("clang -Os", "/usr/bin/clang", ("-Os",), "div"), ("clang -Oz", "/usr/bin/clang", ("-Oz",), "div")]
    sel = only.split("/", 1) if only and "/" in only else None
    for i, (nm, cc, add, arg) in enumerate(builds):
        lib = os.path.join(d, "src%d" % i)
        build_libs(lib, cc or "/usr/bin/gcc", add=("-Wl,-z,now", "-Wl,-z,relro") + add)
        oj = os.path.join(d, "o%d.json" % i)
        rc, txt = run_harness(exe, lib, "C12", oj, arg=arg, only=only, env={"VALGRIND_LIB": tool, "GLIBC_TUNABLES": ""},
                              pre=("valgrind", "--tool=mct", "-q", "--vex-guest-max-insns=60", "--trace-children=no", "--run-libc-freeres=no"))
        sys.stdout.write(txt)
        if only: return rc
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); js["groups"] = {"%s: %s" % (nm, k): v for k, v in js["groups"].items()}
        res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
        if res.violations: break
    return res.finish(RULE)
