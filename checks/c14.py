from sorter_table import combos
def plan(c):
    t = c.tier == "thorough"
    for p in (1, 2, 3, 4): c.module("p%d" % p, "adapters.cpp", ["PART=%d" % p], api=True)
    c.bounds = ["every adapter on reference sorters (stable, recording) of each iterator category, with and without state, nested; schwartz on 23 sorters, indirect on 14 combinations, counting on 16; all documented call forms",
                "all keys free: n <= %d (%d where every order matters); block-symbolic keys for n up to %d" % (5 if t else 4, 6 if t else 5, 300 if t else 140)]
    sizes = [(8, 3), (17, 3), (33, 3), (70, 2), (140, 2)] + ([(50, 3), (300, 2)] if t else [])
    def go(mod, e, which, form, free, ns, k=1):
        for n in range(free + 1): c.task(mod, e, [which, form, n, 0, 0, 0, 0, 1], "%s.%d.%d.free.n%d" % (e, which, form, n), steps=20000000)
        for n, m in ns:
            for sh, pat in combos(k, e, which, form, n): c.task(mod, e, [which, form, n, 1, m, sh, pat, c.seed], "%s.%d.%d.n%d.s%d.p%d" % (e, which, form, n, sh, pat), steps=50000000)
    for w in range(23):
        for f in range(8): go("p1", "e_schwartz", w, f, 5 if t else 4 if f in (1, 7) else 3, sizes if f in (0, 3) else sizes[1:3] if t else [], 3 if t else 1)
    for w in range(14):
        for f in range(5): go("p2", "e_indirect", w, f, 6 if t else 5 if f == 0 else 4, sizes if f in (0, 3) else sizes[1:3], 3 if t else 1)
        for f in range(2): go("p2", "e_indirect_throw", w, f, 5 if t else 4, sizes[:4] if t else sizes[:2])
    for w in range(6):
        for f in range(5): go("p2", "e_oop", w, f, 5 if t else 4, sizes[:3])
    for w in range(14):
        for f in range(8): go("p3", "e_hybrid", w, f, 4 if t else 3, sizes[:1])
    for w in range(16):
        for f in range(8): go("p3", "e_forward", w, f, 4 if t else 3, sizes[:1])
        for f in range(4): go("p3", "e_counting", w, f, 5 if t else 4, sizes[:5 if t else 4], 2 if t else 1)
    for w in range(8):
        for f in range(6 if w > 5 else 5): go("p3", "e_self", w, f, 4, [(8, 3), (13, 3)])
    for w in range(5):
        for f in range(5): go("p3", "e_aware", w, f, 4, sizes[:1])
        for f in range(4):
            for sa in range(2): c.task("p3", "e_small", [w, f, sa])
    for w in range(18):
        for f in range(4): go("p4", "e_adapted", w, f, 5 if t or f == 0 else 4, sizes, 6 if t else 2)
