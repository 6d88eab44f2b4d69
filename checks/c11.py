from vlib import *
def run(only=None):
    return standard("C11", ["c11.c", "mc.c", "spec.c", "libs.c"],
      "all input lengths 0..699 (thorough 1099) x 5 contents, all output lengths 0..679 (1199), every single-instance byte difference, shared/overlapping/in-place buffers, all compositions of 6 (7) blocks into squeezeblocks calls, all (instance, offset, length) of the byte operations, all lane counts/offsets/alignments of the lane operations, all 6400 single-bit states of both permutations, absorbing loops over layouts and boundaries, all state-operation sequences to depth 4 (5)", only=only)
