from sorter_table import *
import safety_table
def plan(c):
    thorough = c.tier == "thorough"; small = 7 if thorough else 6
    c.bounds = ["every sorter, a representative of every adapter, fixed-size sorters of 11 sizes, every probe, the sorted views, apply_permutation, ska_sorter and spread_sorter, with move-only and copyable elements that track their lifecycle, and with integers",
                "memory model: redzones around every object, initialised-byte tracking, use-after-free, double free, leaks, integer overflow, shifts, bounds, unreachable",
                "all keys free: n <= %d; block-symbolic keys for n up to %d; patterns with free keys inserted for n up to 300" % (small, 2000 if thorough else 1100)]
    c.assumptions = ["self-swap is allowed (documented): a self-move of an already moved-from element is not an error",
                     "keys of larger ranges follow the stated patterns; only their levels are free"]
    for name, (hdr, ty, cat, st, tol) in S.items():
        c.module(name, "sorts.cpp", moddefs(3, ty, cat, [hdr]))
        sweep(c, name, cat, ["e_ra", "e_rap", "e_int", "e_copy", "e_bid", "e_fwd"], small if thorough else 5, 30 if thorough else 7, SIZES + (MORE if thorough else []), name in QUAD, slim=("e_rap", "e_int", "e_copy", "e_bid", "e_fwd"), adv=True)
    for name, (ty, cat, hdrs, tol) in ADAPTERS.items():
        c.module(name, "sorts.cpp", moddefs(3, ty, cat, hdrs))
        sweep(c, name, cat, ["e_ra", "e_rap", "e_int", "e_bid", "e_fwd"], small if thorough else 5, 20 if thorough else 4, SIZES + (MORE if thorough else []), False, slim=("e_rap", "e_int", "e_bid", "e_fwd"), maxn=10**9 if thorough else 620, big=thorough)
    safety_table.safety(c, 3)
    safety_table.fixed(c, 3, [("e_ra", []), ("e_rap", []), ("e_copy", [])])
