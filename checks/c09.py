from vlib import *
def run(only=None):
    return standard("C09", ["c09.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "exhaustive enumeration of chosen XOF streams: all 4096 values at all candidate positions, all 256 acceptance masks of every 8-candidate group, 0..419 rejections in 8 arrangements, end-of-sampling masks at every buffer position, all combinations of 0..6 extra blocks across lanes, both orientations, entry by entry and through key generation/encryption", only=only)
