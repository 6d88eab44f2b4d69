#!/usr/bin/env python3
"""python3 check.py <ID> [--only unit]: run the check of one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    try:
        return importlib.import_module("checks." + prop.lower()).run(only)
    except vlib.CheckError as e:
        sys.stderr.write("CHECK ERROR %s: %s\n" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
