from vlib import *
def run(only=None):
    return standard("C06", ["c06.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "exhaustive enumeration of value x position (all 65536 representatives through the tree's own reduction, 8 neighbour ladders; every canonical value at every position over constant backgrounds; all 3329^2 adjacent pairs of the 12-bit packing; all field values at every position for the decoders), and the same value x position space through the public API with chosen hash answers", only=only)
