from vlib import *
RULE = ("Stateless exploration with real threads run one at a time. Scheduling points: every entry into the hash layer and every access to writable library memory or library-allocated memory (page protection + single step), plus instruction-count grids. "
        "All schedules with at most 2 preemptions for pairs within one library (quick: equal operations on distinct inputs; 1 for all other pairs), at most 1 across libraries and for three threads (thorough 2); shared inputs are mapped read-only")
def run(only=None):
    r = standard("C16", ["c16.c", "mc.c", "spec.c", "libs.c", "oracle.c", "snap.c"], RULE, only=only)
    return r
