#!/usr/bin/env python3
"""offline setup: check the tools and pre-build the ASan library objects of the current tree (cache in build/obj)"""
import os, sys, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import check
for t in ("clang++", "verus"): subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
odir = V + "/build/obj"; os.makedirs(odir, exist_ok=True); os.makedirs(V + "/evidence/replay", exist_ok=True)
hh = check.headers_hash()
with cf.ThreadPoolExecutor(8) as ex: bad = [e for o, e in ex.map(lambda s: check.obj(s, hh, odir, check.LIBFLAGS), check.sources()) if o is None]
print("setup done" if not bad else bad[0][:2000])
