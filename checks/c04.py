from vlib import *
def run(only=None):
    return standard("C04", ["c04.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "product exploration: every enumerated input (honest, malformed, chosen hash answers) is given to both implementations and all outputs compared; all 8 role assignments for every enumerated coin string", only=only)
