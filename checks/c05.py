from sorter_table import *
import safety_table
def plan(c):
    thorough = c.tier == "thorough"
    c.bounds = ["every sorter, a representative of every adapter, fixed-size sorters of 11 sizes, every probe, the sorted views, apply_permutation, ska_sorter and spread_sorter; allocation number k fails, for every k < 255, once or from then on",
                "all keys free: n <= %d; block-symbolic keys for n up to %d; every one of %d patterns with fixed keys for n = 36, 70 and 140" % (5 if thorough else 4, 1100 if thorough else 700, PATS + 1)]
    c.assumptions = ["only operator new (throwing and nothrow) fails"]
    sizes = [(9, 3), (18, 3), (26, 3), (36, 3), (45, 3), (70, 2), (140, 2), (270, 2), (700, 2)] + ([(1100, 2), (33, 3), (100, 3)] if thorough else [])
    def one(name, cat, tol, quad, stab):
        for e in ("e_ra", "e_bid", "e_fwd"):
            if e == "e_bid" and cat > 1 or e == "e_fwd" and cat > 0: continue
            for n in range(1, 5 if thorough else 4): c.task(name, e, [n, 0, 0, 0, 0, 1, int(tol), int(stab)], "%s.%s.free.n%d" % (name, e, n))
            for n, m in sizes:
                if quad and n > 140: continue
                for sh, pat in combos(8 if thorough else 3 if n < 300 else 1, name, e, n): c.task(name, e, [n, 1, m, sh, pat, c.seed, int(tol), int(stab)], "%s.%s.n%d.s%d.p%d" % (name, e, n, sh, pat), steps=30000000)
            if e == "e_ra" or thorough:
                for n in (36, 70, 140):
                    if quad and n > 70: continue
                    for pat in range(PATS + 1): c.task(name, e, [n, 1, 1, 0, pat, c.seed, int(tol), int(stab)], "%s.%s.n%d.fixed.p%d" % (name, e, n, pat), steps=30000000)
    for name, (hdr, ty, cat, st, tol) in S.items():
        c.module(name, "sorts.cpp", moddefs(5, ty, cat, [hdr])); one(name, cat, tol, name in QUAD, st)
    for name, (ty, cat, hdrs, tol) in ADAPTERS.items():
        c.module(name, "sorts.cpp", moddefs(5, ty, cat, hdrs)); one(name, cat, tol, False, name.startswith("stable") or name in ("indirect_merge", "schwartz_merge", "oop_merge"))
    safety_table.safety(c, 5)
    safety_table.fixed(c, 5, [("e_ra", [1, 0])])
