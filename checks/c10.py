from vlib import *
def run(only=None):
    return standard("C10", ["c10.c", "mc.c", "spec.c", "libs.c"],
      "explicit-state enumeration of the sponge automaton: every (block position, next chunk length) absorb and squeeze transition, all call sequences over the boundary-length alphabet to depth 4 (thorough 5), all input lengths to 1200 and output lengths to 1024 (thorough 4000), block/byte squeeze mixes, interleaved sponges, in-place outputs, single-bit messages, and a 2^32+3 byte input", only=only)
