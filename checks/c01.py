from vlib import *
def run(only=None):
    return standard("C01", ["c01.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "every enumerated coin string, and every enumerated assignment of matrix and noise polynomials answered through the interposed hash layer, is run as key generation, encapsulation, decapsulation; the model decides which assignments stay below the decoding threshold", only=only,
      assumptions=["the hash layer reached through the libraries' undefined fips202 symbols is answered by the harness in the chosen-noise groups"])
