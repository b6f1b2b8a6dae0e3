NETS = {"sorting_network": ("fixed/sorting_network_sorter.h", "cppsort::sorting_network_sorter"),
        "merge_exchange": ("fixed/merge_exchange_network_sorter.h", "cppsort::merge_exchange_network_sorter"),
        "odd_even": ("fixed/odd_even_merge_network_sorter.h", "cppsort::odd_even_merge_network_sorter")}
LOW = {"low_comparisons": ("fixed/low_comparisons_sorter.h", "cppsort::low_comparisons_sorter"),
       "low_moves": ("fixed/low_moves_sorter.h", "cppsort::low_moves_sorter")}
def sizes(kind, thorough):
    if kind == "sorting_network": return list(range(0, 65))
    if kind == "merge_exchange": return list(range(0, 34)) + [40, 48, 63, 64] + ([50, 57, 80, 96, 100, 128] if thorough else [])
    if kind == "odd_even": return [0, 1, 2, 4, 8, 16, 32, 64] + ([128] if thorough else [])
    if kind == "low_comparisons": return list(range(0, 14))
    return list(range(0, 21)) + [33, 64]
def mods(c, kind, hdr, ty, thorough, net, only=None):
    """modules of at most 8 sizes; returns size -> module"""
    out = {}; s = sizes(kind, thorough)
    if kind == "sorting_network": groups = [list(range(a, b)) for a, b in ((0, 9), (9, 17), (17, 25), (25, 33), (33, 41), (41, 49), (49, 57), (57, 65))]
    else: groups = [s[i:i + 8] for i in range(0, len(s), 8)] if len(s) > 16 else [s[:len(s) // 2 + 1], s[len(s) // 2 + 1:]]
    for g in groups:
        if only is not None: g = [n for n in g if n in only]
        if not g: continue
        name = "%s_%d" % (kind, g[0])
        d = ['HDR="cpp-sort/%s"' % hdr, "FS=%s" % ty, "SIZES=" + ",".join(map(str, g))] + (["NET"] if net else []) + (["NARROW=int"] if kind in ("merge_exchange", "odd_even") else [])
        if kind == "sorting_network" and g[0] <= 32 < g[-1]: raise Exception("group spans the adapter's domain")
        if kind == "sorting_network" and g[-1] > 32: d.append("NOSMALL")
        c.module(name, "fixed.cpp", d, flags=["-fconstexpr-steps=100000000"])
        for n in g: out[n] = name
    return out
def plan(c):
    thorough = c.tier == "thorough"
    c.bounds = ["sorting networks: every documented size 0-64, all 0-1 inputs of each (the 0-1 principle lifts this to all inputs because C07 shows the compared positions do not depend on the data)",
                "merge-exchange networks: sizes %s; odd-even merge networks: powers of 2 up to %d" % ("0-33, 40, 48, 50, 57, 63, 64, 80, 96, 100, 128" if thorough else "0-33, 40, 48, 63, 64", 128 if thorough else 64),
                "low-comparison sorters 0-13, low-move sorters 0-20, 33, 64: all keys free up to %d elements, all keys but 3 in order up to 13, block-symbolic above" % (9 if thorough else 8),
                "integer and floating-point values (bit-exact, no NaN): 2 to 4 (5) elements of 3 integer types, 2 and 3 of 64-bit and floating-point types"]
    c.assumptions = ["0-1 principle for networks", "a low-comparison sorter of size 10-13 is checked from a state where all but three keys are in order; the recursive call it makes is the sorter of the smaller size, checked on its own"]
    for kind, (hdr, ty) in {**NETS, **LOW}.items():
        net = kind in NETS; m = mods(c, kind, hdr, ty, thorough, net)
        for n, mod in m.items():
            T = lambda e, a, **k: c.task(mod, e, [n] + a, "%s.%s.n%d.%s" % (kind, e, n, "_".join(map(str, a))), **{"steps": 60000000, **k})
            if net:
                cut = max(4, n // 2) if n > 10 else 0
                T("e_net", [cut, 0], gates=1); T("e_pairs", [cut], gates=1)
                if n <= 16 or thorough: T("e_net", [cut, 1], gates=1)
            small = (9 if thorough else 8) if kind == "low_comparisons" else (8 if thorough else 7) if kind == "low_moves" else 6 if thorough else 5
            if n <= small: T("e_gen", [0, 0, 0, 0], gates=1)
            if n <= small - 2: T("e_genp", [0, 0, 0, 0])
            else: T("e_genp", [1, 4, 3, 3] if n <= 13 else [1, 3, 3, 3])
            if not (kind == "sorting_network" and n > 32):
                if n <= min(small - 2, 4): T("e_small", [0, 0, 0, 0])
                else: T("e_small", [1, 3, 3, 3])
            for sh in ((0, 3, 6) if not thorough else range(12)):
                if n > small: T("e_gen", [1, 4 if n <= 16 else 3, sh, 0 if sh == 3 else 3])
            if kind == "low_comparisons" and n > small:
                for lo, hi in ((0, n - 2), (1, n - 1), (2, n), (0, n - 1), (1, n)) + (((0, n - 3), (3, n), (1, n - 2), (2, n - 1)) if n < 13 or thorough else ()): T("e_gen", [3, 0, lo, hi])
            if 2 <= n <= (5 if thorough else 4):
                for ty_ in range(6 if n < 4 else 3):
                    for desc in (0, 1): T("e_vals", [ty_, desc], gates=1)
    # C++20: std::ranges::less, std::ranges::greater and std::identity
    for kind, (hdr, ty) in {**NETS, **LOW}.items():
        sz = (2, 4) if kind == "odd_even" else (2, 3) if kind == "merge_exchange" else (2, 3, 4)
        c.module("r20." + kind, "fixed.cpp", ['HDR="cpp-sort/%s"' % hdr, "FS=%s" % ty, "SIZES=" + ",".join(map(str, sz)), "NOSMALL"], flags=["-std=c++20", "-fconstexpr-steps=100000000"], api=True)
        for n in sz:
            for ty_ in range(3):
                for form in range(8):
                    if ty_ and n == 4: continue
                    c.task("r20." + kind, "e_vals20", [n, ty_, form], "%s.c++20.n%d.t%d.f%d" % (kind, n, ty_, form), gates=1, steps=2000000)
