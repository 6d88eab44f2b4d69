from vlib import *
RULE = ("every KEM, hash, four-way hash, verify and cmov operation with each byte-array argument at all 64 alignments, at page-crossing placements, pairs of arguments moved together, "
        "packed back to back in both orders; results compared with the aligned call; the portable implementation additionally under -fsanitize=alignment")
SRC = ["c18.c", "mc.c", "spec.c", "libs.c"]
def run(only=None):
    d = scratch(); res = Result("C18")
    for name, flags in (("plain", None), ("ubsan", ("-fsanitize=alignment", "-fno-sanitize-recover=all"))):
        lib = os.path.join(d, name)
        if only and "@" in only and only.split("@")[1] != name: continue
        if flags: build_libs(lib, add=flags + ("-w",), drop=("-Werror",))
        else: build_libs(lib)
        exe = cc_harness(os.path.join(d, "c18-" + name), SRC, flags=("-fsanitize=undefined",) if False else (), libs=("-ldl",) + (("-lubsan",) if flags else ()))
        oj = os.path.join(d, name + ".json")
        rc, txt = run_harness(exe, lib, "C18", oj, arg="ref" if flags else "all", only=only and only.split("@")[0])
        sys.stdout.write(txt)
        if only: return rc
        if rc not in (0, 1): raise CheckError("harness ended with status %s" % rc)
        js = json.load(open(oj)); js["groups"] = {name + " " + k: v for k, v in js["groups"].items()}; res.add(js)
        for l in txt.splitlines():
            if l.startswith("VIOLATION "): res.violations.append((l, l.split("replay=")[1]))
        if res.violations: break
    return res.finish(RULE)
