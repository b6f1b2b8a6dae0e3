#!/usr/bin/env python3
# cov.py C01 C02 ... : lines of /repo/include present in the IR of the last VERIF_COV=1 runs that no path executed
import json, os, sys
cov = {}; allv = {}
for p in sys.argv[1:]:
    r = json.load(open("/verif/build/%s.json" % p))
    for f, l in r["lines"].items(): (allv if f[0] == "!" else cov).setdefault(os.path.realpath(f.lstrip("!")), set()).update(l)
for f in sorted(allv):
    miss = sorted(allv[f] - cov.get(f, set()))
    src = open(f).read().split("\n") if f.startswith("/") else []
    miss = [m for m in miss if src and "ASSERT" not in src[m - 1] and "ASSUME" not in src[m - 1] and src[m-1].strip() not in ("}", "{", "")]
    if miss:
        print("==", f.split("cpp-sort/", 1)[1], "%d/%d" % (len(miss), len(allv[f])))
        for m in miss: print("   %5d %s" % (m, src[m - 1].strip()[:110]))
