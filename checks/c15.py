from sorter_table import combos
def plan(c):
    t = c.tier == "thorough"
    c.module("lists", "lists.cpp", api=True)
    c.bounds = ["insertion, selection, merge and mel sorters x std::list and std::forward_list, with the default and with a stateful allocator, 6 call forms",
                "all keys free: n <= %d; block-symbolic keys for n up to %d; any comparison or projection may throw" % (7 if t else 6, 130 if t else 70)]
    for e in ("insertion", "selection", "merge", "mel"):
        for w in range(4):
            for f in range(6):
                for n in range((7 if t else 6) + 1):
                    if n > (6 if t else 4) and (f not in (1, 3) or w > 1): continue
                    c.task("lists", "e_" + e, [w, f, 0, n, 0, 0, 0, 0, 1], "%s.%d.%d.free.n%d" % (e, w, f, n), steps=20000000)
                for n, m in [(9, 4), (17, 3), (34, 3), (70, 3)] + ([(13, 4), (51, 3), (130, 3)] if t else []):
                    if n > 20 and e in ("insertion", "selection") and f % 2 == 0 and not t: continue
                    for sh, pat in combos(10 if t else 3 if w < 2 else 1, e, w, f, n): c.task("lists", "e_" + e, [w, f, 0, n, 1, m, sh, pat, c.seed], "%s.%d.%d.n%d.s%d.p%d" % (e, w, f, n, sh, pat), steps=50000000)
            for f in (2, 4, 5):
                for n in range(2, 6 if t else 5): c.task("lists", "e_" + e, [w, f, 1, n, 0, 0, 0, 0, 1], "%s.%d.%d.throw.n%d" % (e, w, f, n), steps=20000000)
                for n, m in ((9, 3), (20, 2)):
                    for sh, pat in combos(4 if t else 1, e, w, f, n, "t"): c.task("lists", "e_" + e, [w, f, 1, n, 1, m, sh, pat, c.seed], "%s.%d.%d.throw.n%d.s%d.p%d" % (e, w, f, n, sh, pat), steps=50000000)
