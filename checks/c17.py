from sorter_table import combos
def plan(c):
    t = c.tier == "thorough"
    for p in (8, 9):
        for g in range(4): c.module("p%d.%d" % (p, g), "views.cpp", ["PART=%d" % p, "G=%d" % g], api=True)
    c.bounds = ["sorted_iterators with 10 sorters on list, const forward_list, vector and const vector, sorted_indices with 12 on vector and const vector, 6 call forms: n <= %d with all keys free, block-symbolic keys up to %d" % (6 if t else 5, 300 if t else 140),
                "apply_permutation: every permutation of up to %d elements; up to 3 free transpositions of 5 cycle structures for n up to %d; 4 index types and call forms" % (7 if t else 6, 128 if t else 64)]
    for e, mod, ws, rs in (("e_iters", "p8", 10, 4), ("e_indices", "p9", 12, 2)):
        for w in range(ws):
            for r in range(rs):
                for f in range(6):
                    for n in range(7) if t else range(6 if f in (0, 3) else 3): c.task("%s.%d" % (mod, w % 4), e, [w, r, f, n, 0, 0, 0, 0, 1], "%s.%d.%d.%d.free.n%d" % (e, w, r, f, n), steps=20000000)
                    for n, m in [(8, 3), (17, 3), (33, 3), (70, 2), (140, 2)] + ([(300, 2)] if t else []):
                        if not t and f not in (0, 3) and n != 33: continue
                        for sh, pat in combos(3 if t else 1, e, w, r, f, n): c.task("%s.%d" % (mod, w % 4), e, [w, r, f, n, 1, m, sh, pat, c.seed], "%s.%d.%d.%d.n%d.s%d.p%d" % (e, w, r, f, n, sh, pat), steps=50000000)
    for f in range(4):
        for n in range(8 if t else 7): c.task("p9.%d" % f, "e_perm", [0, n, 0, f], "e_perm.all.n%d.f%d" % (n, f), steps=20000000)
        for b in range(1, 6):
            for n, m in [(4, 2), (7, 2), (9, 1), (16, 1), (33, 1), (64, 1)] + ([(6, 3), (12, 2), (128, 1)] if t else []): c.task("p9.%d" % f, "e_perm", [b, n, m, f], "e_perm.%d.n%d.m%d.f%d" % (b, n, m, f), steps=20000000)
