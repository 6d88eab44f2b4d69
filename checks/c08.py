from vlib import *
def run(only=None):
    return standard("C08", ["c08.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "exhaustive bit patterns: every byte x position x background, every 16-bit group at every position (eta=2), all 2^24 four-coefficient groups (eta=3), all 256 nonces x seeds for scalar and 4-way samplers, and key generation/encryption with every byte value at every position of every nonce's sampler input", only=only)
