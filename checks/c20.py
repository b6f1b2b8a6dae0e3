from sorter_table import S, ADAPTERS, QUAD, combos, moddefs
FIX = [("network", "sorting_network_sorter", (2, 3, 5, 8, 13, 17)), ("comparisons", "low_comparisons_sorter", (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)),
       ("moves", "low_moves_sorter", (0, 1, 2, 3, 4, 5, 7, 9, 12)), ("merge_exchange", "merge_exchange_network_sorter", (2, 5, 12)), ("odd_even_merge", "odd_even_merge_network_sorter", (2, 4, 8, 16))]
def plan(c):
    t = c.tier == "thorough"
    c.bounds = ["every sorter and adapter stack but std_sorter and std_stable_sorter, and %d fixed-size sorters, on an iterator with customised iter_move and iter_swap and on a proxy iterator, with and without projection" % sum(len(f[2]) for f in FIX),
                "n <= %d with all keys free; block-symbolic keys up to %d" % (5 if t else 4, 1100 if t else 300),
                "grail, wiki and block sorters with fixed (0, 1, 2, several, large), dynamic (all size functions, constant sizes) buffers, n <= %d free and up to %d block-symbolic" % (4 if t else 3, 1100 if t else 260)]
    def sweep(mod, e, pre, quad, small, cat=2):
        for n in range(small + 1): c.task(mod, e, pre + [n, 0, 0, 0, 0, 1], "%s.%s.%s.free.n%d" % (mod, e, "-".join(map(str, pre)), n), steps=20000000)
        for n, m in [(10, 3), (17, 3), (33, 3), (70, 3), (130, 3), (300, 2)] + ([(20, 3), (45, 3), (200, 3), (600, 2), (1100, 2)] if t else []):
            if quad and n > 140: continue
            for sh, pat in combos(8 if t else 3, mod, e, n, *pre): c.task(mod, e, pre + [n, 1, m, sh, pat, c.seed], "%s.%s.%s.n%d.s%d.p%d" % (mod, e, "-".join(map(str, pre)), n, sh, pat), steps=60000000)
        for n in (140, 240):
            if not quad: c.task(mod, e, pre + [n, 1, 3, 12, 18, c.seed], "%s.%s.%s.runs.n%d" % (mod, e, "-".join(map(str, pre)), n), steps=60000000)
    for name, e in S.items():
        if name == "std": continue
        d = moddefs(0, e[1], e[2], [e[0]])
        mod = name + ".custom"; c.module(mod, "iters.cpp", ["PART=1"] + d, api=True)
        for how in (1, 3): sweep(mod, "e_custom", [how, how != 1], name in QUAD, 5 if t else 4)
        mod = name + ".proxy"; c.module(mod, "iters.cpp", ["PART=2"] + d, api=True)
        for proj in (0, 1): sweep(mod, "e_proxy", [proj], name in QUAD, 5 if t else 4)
    for name, e in ADAPTERS.items():
        if name == "stable_std": continue
        for part, ent, pres in ((1, "e_custom", ([1, 1], [3, 0])), (2, "e_proxy", ([0], [1]))):
            mod = "%s.%s" % (name, "custom" if part == 1 else "proxy"); c.module(mod, "iters.cpp", ["PART=%d" % part] + moddefs(0, e[0], e[1], e[2]), api=True)
            for pre in pres: sweep(mod, ent, pre, False, 4 if t else 3)
    for nm, ty, sizes in FIX:
        for part, e, pres in ((1, "e_custom", ([1, 1], [3, 0])), (2, "e_proxy", ([0], [1]))):
            mod = "fixed.%s.%s" % (nm, "custom" if part == 1 else "proxy")
            c.module(mod, "iters.cpp", ["PART=%d" % part, "FIXED=cppsort::%s" % ty, "FSIZES=%s" % ",".join(map(str, sizes)), "CAT=2", 'HDR="cpp-sort/fixed/%s.h"' % ty], flags=["-fconstexpr-steps=100000000"], api=True)
            for pre in pres:
                for n in sizes:
                    if n <= 5: c.task(mod, e, pre + [n, 0, 0, 0, 0, 1], "%s.%s.free.n%d" % (mod, "-".join(map(str, pre)), n), steps=20000000)
                    else:
                        for sh, pat in combos(8 if t else 3, mod, n, *pre): c.task(mod, e, pre + [n, 1, 4, sh, pat, c.seed], "%s.%s.n%d.s%d.p%d" % (mod, "-".join(map(str, pre)), n, sh, pat), steps=60000000)
    for nm, ty in (("grail", "cppsort::grail_sorter"), ("wiki", "cppsort::wiki_sorter"), ("block", "cppsort::block_sorter")):
        for g in range(5):
            mod = "buf.%s.g%d" % (nm, g); c.module(mod, "buffers.cpp", ["SORT=%s" % ty, "G=%d" % g], api=True)
            for which in range(4):
                if nm == "block" and not t and which not in (0, 2): continue      # the same algorithm as wiki
                for proj in (0, 1):
                    for n in range(5 if t else 4): c.task(mod, "e_buf", [which, proj, n, 0, 0, 0, 0, 1], "%s.%d.%d.free.n%d" % (mod, which, proj, n))
                    for n, m in [(9, 4), (16, 3), (23, 3), (40, 3), (70, 3), (130, 3), (260, 2)] + ([(33, 3), (100, 3), (200, 3), (400, 3), (1100, 2)] if t else []):
                        for sh, pat in combos(10 if t else 3, mod, which, n, proj): c.task(mod, "e_buf", [which, proj, n, 1, m, sh, pat, c.seed], "%s.%d.%d.n%d.s%d.p%d" % (mod, which, proj, n, sh, pat), steps=60000000)
                for n in (120, 260) if not t else (120, 200, 260, 500):            # few distinct keys: the internal buffers cannot be extracted
                    for sh in range(0, 12, 1 if t else 3): c.task(mod, "e_buf", [which, sh & 1, n, 1, 3, sh, 0, c.seed], "%s.%d.few.n%d.s%d" % (mod, which, n, sh), steps=60000000)
    c.module("buf.members", "buffers.cpp", ["SORT=cppsort::grail_sorter", "G=5"], api=True)
    for which in range(10):
        for n in (0, 1, 2, 5, 17, 100): c.task("buf.members", "e_members", [which, n], "buf.members.%d.n%d" % (which, n))
