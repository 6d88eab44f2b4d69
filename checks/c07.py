from vlib import *
def run(only=None):
    return standard("C07", ["c07.c", "mc.c", "spec.c", "libs.c", "oracle.c"],
      "exhaustive over the scalar reductions' whole domains and every 16-bit value x position; transforms on a basis x values, on all 256 Walsh sign patterns x amplitudes and on inputs that make the state after each layer extremal; products on all monomial pairs and extremal quadruples; the public API on the cross product of extremal matrix/key/noise/ciphertext patterns; all judged exactly modulo q", only=only)
