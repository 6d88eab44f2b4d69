#!/usr/bin/env python3
"""Checks the tool chain; every check builds what it needs from /repo itself."""
import shutil, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
need = ["gcc", "clang", "make", "nm", "objdump", "valgrind", "openssl"]
miss = [n for n in need if not shutil.which(n)]
for d in ("evidence", "replays"): os.makedirs(os.path.join(V, d), exist_ok=True)
if miss: print("missing tools:", miss)
sys.exit(0)
