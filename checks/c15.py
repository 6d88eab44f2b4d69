from vlib import *
RULE = ("Per implementation: all ordered pairs over an alphabet of 45-65 operations with near-colliding arguments in two address modes, all sequences of the 14-operation core to depth 3 with a rotating fourth (thorough: all of depth 4), "
        "300 (3000) repetitions, all 924 interleavings of two incremental hashes x 36 piece plans, every operation under 10 stack/register fills x 4 output fills x 4 stack shifts, and the same alphabet on builds whose uninitialised locals are filled by the compiler; "
        "library state (data segments and thread-local storage) is restored before and hashed after each sequence")
def run(only=None):
    d = scratch(); res = Result("C15")
    exe = cc_harness(os.path.join(d, "c15"), ["c15.c", "mc.c", "spec.c", "libs.c", "snap.c"])
    builds = [("as built", (), None), ("-ftrivial-auto-var-init=pattern", ("-ftrivial-auto-var-init=pattern",), "basic"), ("-ftrivial-auto-var-init=zero", ("-ftrivial-auto-var-init=zero",), "basic")]
    for i, (nm, add, arg) in enumerate(builds):
        if only and i: break
        lib = os.path.join(d, "s%d" % i)
        build_libs(lib, add=("-Wl,-z,now", "-Wl,-z,relro") + add)
        oj = os.path.join(d, "o%d.json" % i)
        if only and only.startswith("long-"): arg = "long"
        rc, txt = run_harness(exe, lib, "C15", oj, arg=arg, only=only)
        sys.stdout.write(txt)
        if only: return rc
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); js["groups"] = {"%s: %s" % (nm, k): v for k, v in js["groups"].items()}; res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
        if res.violations: break
    # counters and other slow state: only when the libraries keep any state at all, or in the thorough tier
    if not res.violations and (THOROUGH or res.counters.get("operations leaving library memory changed", 0)):
        oj = os.path.join(d, "long.json")
        rc, txt = run_harness(exe, os.path.join(d, "s0"), "C15", oj, arg="long")
        sys.stdout.write(txt)
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); js["groups"] = {"66000 repetitions: %s" % k: v for k, v in js["groups"].items()}; res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
    dirty = res.counters.get("operations leaving library memory changed", 0)
    res.extra["state_space_closed"] = dirty == 0
    if dirty == 0: res.notes.append("no operation changes the tracked library memory: the reachable state space has one element and the pairwise results extend to histories of any length over this alphabet")
    return res.finish(RULE)
