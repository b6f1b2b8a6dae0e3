from sorter_table import *
import safety_table
def plan(c):
    thorough = c.tier == "thorough"
    c.bounds = ["every sorter, a representative of every adapter, fixed-size sorters of 11 sizes, every probe, the sorted views, apply_permutation, ska_sorter and spread_sorter; the n-th comparison, projection or move throws, for every n",
                "all keys free: n <= %d; block-symbolic keys (2 free levels) for n up to %d; every one of %d patterns with fixed keys and a throwing move for n = 36" % (5 if thorough else 4, 700 if thorough else 600, PATS + 1)]
    c.assumptions = ["one user operation throws, once"]
    sizes = [(9, 3), (18, 2), (26, 2), (36, 2), (45, 2), (70, 2), (140, 1)] + ([(220, 2), (600, 1)] if thorough else [])
    def one(name, cat, quad, adapter):
        for e in ("e_ra", "e_rap", "e_bid", "e_fwd"):
            if e == "e_bid" and cat > 1 or e == "e_fwd" and cat > 0: continue
            for kinds, kn in ((1, "comp"), (2, "proj"), (4, "move"), (7, "any")):
                if (kinds == 2 or kinds == 7) != (e == "e_rap"): continue
                for n in range(1, (5 if thorough else 4) + (1 if kinds != 7 else 0)): c.task(name, e, [n, 0, 0, 0, 0, 1, kinds], "%s.%s.%s.free.n%d" % (name, e, kn, n))
                for n, m in sizes:
                    if quad and n > (80 if thorough else 40): continue
                    k = 6 if thorough else 2 if (n < 60 and e == "e_ra") else 1
                    if not thorough and (adapter and n > 60 or e != "e_ra" and n > 60 or e == "e_rap" and (n > 40 or kinds == 7 and n > 30)): continue
                    for sh, pat in combos(k, name, e, n, kinds): c.task(name, e, [n, 1, m, sh, pat, c.seed, kinds], "%s.%s.%s.n%d.s%d.p%d" % (name, e, kn, n, sh, pat), steps=30000000)
        # every pattern, with fixed keys: the paths differ in the point of the exception only
        for e in ("e_ra", "e_bid") if thorough and cat < 2 else ("e_ra",):
            for pat in range(PATS + 1):
                for n, kinds, kn in [(36, 4, "move")] + ([(36, 1, "comp"), (70, 4, "move"), (133, 4, "move")] if thorough else []):
                    if n > 80 and quad: continue
                    c.task(name, e, [n, 1, 1, 0, pat, c.seed, kinds], "%s.%s.%s.n%d.fixed.p%d" % (name, e, kn, n, pat), steps=30000000)
    for name, (hdr, ty, cat, st, tol) in S.items():
        c.module(name, "sorts.cpp", moddefs(4, ty, cat, [hdr])); one(name, cat, name in QUAD, False)
    for name, (ty, cat, hdrs, tol) in ADAPTERS.items():
        c.module(name, "sorts.cpp", moddefs(4, ty, cat, hdrs)); one(name, cat, False, True)
    safety_table.safety(c, 4)
    safety_table.fixed(c, 4, [("e_ra", [1]), ("e_ra", [4]), ("e_rap", [2])])
