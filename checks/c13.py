from vlib import *
def run(only=None):
    return standard("C13", ["c13.c", "mc.c", "spec.c", "libs.c"],
      "verify: every length 0..1700 x every single position, every byte difference at every position of a ciphertext, every pair of positions with cancelling differences, every number of differences, periodic patterns, lengths over 2^16 and 2^32; cmov: every length 0..1700 x alignments x flag, all byte pairs; cmov_int16: all values against 10 extremes in both roles", only=only)
