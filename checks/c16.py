from sorter_table import combos
def plan(c):
    t = c.tier == "thorough"
    for g in range(8): c.module("m%d" % g, "metrics.cpp", ["PART=5", "G=%d" % g], api=True)
    c.module("p6", "metrics.cpp", ["PART=6"], api=True)
    c.bounds = ["comparisons, projections, moves, running_time over 16 sorters, 8 call forms, default and (2 sorters) other count/duration types; all keys free n <= %d, block-symbolic keys for n up to %d" % (5 if t else 4, 140 if t else 70),
                "running_time against a clock that advances with the operations observed (the real clock is not modelled)", "metric values: all 64-bit values, 4 type pairs, 6 relations"]
    for w in range(16):
        for kind in range(8 if w < 2 else 4):
            for f in range(8):
                if kind in (1, 6) and f < 2: continue
                full = kind < 3 and f in (0, 3)
                for n in range(6) if t else range(5) if full else [0, 1, 3] if kind < 4 else [2]: c.task("m%d" % (w // 2), "e_metric", [w, kind, f, n, 0, 0, 0, 0, 1], "e_metric.%d.%d.%d.free.n%d" % (w, kind, f, n), steps=20000000)
                for n, m in ([(17, 3), (33, 3), (70, 2), (140, 2)] if t else [(18, 3), (40, 2), (70, 2)] if kind < 3 and f in (0, 2, 4, 6) else [(20, 2)]):
                    for sh, pat in combos(2 if t else 1, "metric", w, kind, f, n): c.task("m%d" % (w // 2), "e_metric", [w, kind, f, n, 1, m, sh, pat, c.seed], "e_metric.%d.%d.%d.n%d.s%d.p%d" % (w, kind, f, n, sh, pat), steps=50000000)
    for op in range(6):
        for ty in range(4): c.task("p6", "e_value", [op, ty])
    c.task("p6", "e_group", [])
    for w in range(12):
        for n in [5] if w == 8 else [4] if w == 9 else range(6 if t else 5): c.task("p6", "e_wrapped", [w, n, 0, 0, 0, 0, 1], "e_wrapped.%d.free.n%d" % (w, n), steps=20000000)
        if w not in (8, 9):
            for n, m in [(20, 3), (50, 2)]:
                for sh, pat in combos(2, "w", w, n): c.task("p6", "e_wrapped", [w, n, 1, m, sh, pat, c.seed], "e_wrapped.%d.n%d.s%d.p%d" % (w, n, sh, pat), steps=50000000)
