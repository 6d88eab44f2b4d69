from vlib import *
def run(only=None):
    return standard("C02", ["c02.c", "mc.c", "spec.c", "libs.c"],
      "honest ciphertexts are modified in every enumerated way (each byte by many differences, all pairs of bytes with equal differences, all prefixes, suffixes, strides, rotations, exchanges, word-folding patterns); the result must be the rejection value of the model", only=only)
