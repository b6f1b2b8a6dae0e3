import os, importlib.util
sp = importlib.util.spec_from_file_location("c06m", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c06.py")); m6 = importlib.util.module_from_spec(sp); sp.loader.exec_module(m6)
CES = dict(zip(range(0, 65), [0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60, 71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
    199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346, 365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521]))
CW = {0: 0, 1: 0, 2: 2, 3: 16, 4: 112, 5: 832, 6: 6912, 7: 62784, 8: 623232, 9: 6759936}
MW = {0: 0, 1: 0, 2: 3, 3: 17, 4: 122, 5: 898, 6: 7188, 7: 63276, 8: 612048, 9: 6476112}      # the documentation says 2 for size 2: one swap cannot take fewer than 3 moves
def merge_exchange(n):
    """Knuth 5.2.2M, written from the book"""
    if n < 2: return 0
    t = (n - 1).bit_length(); p = 1 << (t - 1); cnt = 0
    while p:
        q, r, d = 1 << (t - 1), 0, p
        while True:
            cnt += sum(1 for i in range(n - d) if i & p == r)
            if q == p: break
            d = q - p; q >>= 1; r = p
        p >>= 1
    return cnt
def batcher(n):
    k = n.bit_length() - 1
    return 0 if n < 2 else int((k * k - k + 4) * 2 ** (k - 2)) - 1
def plan(c):
    thorough = c.tier == "thorough"; top = 8 if thorough else 7
    c.bounds = ["sorting networks 0-64, merge-exchange and odd-even networks of the sizes of C06: compared positions on free keys up to 4 elements, block-symbolic above; the index pairs are constants",
                "low-comparison and low-move sorters: operations summed over all orders of distinct keys, up to %d elements (one symbolic path per order)" % top]
    c.assumptions = ["documented move weight of size 2 read as 3 (one swap): the documented 2 is not attainable by a swap"]
    for kind, (hdr, ty) in m6.NETS.items():
        for n, mod in m6.mods(c, kind, hdr, ty, thorough, True).items():
            exp = CES[n] if kind == "sorting_network" else batcher(n) if kind == "odd_even" else merge_exchange(n)
            if n <= 4: c.task(mod, "e_count", [n, exp, 0, 0, 0], "%s.count.n%d" % (kind, n), steps=60000000)
            else:
                for sh, pat, lev in ((0, 3, 3), (3, 2, 3)) + (((1, 3, 4), (6, 4, 4), (11, 12, 4), (2, 3, 3)) if thorough else ()): c.task(mod, "e_count", [n, exp, sh, pat, lev], "%s.count.n%d.s%d.p%d" % (kind, n, sh, pat), steps=60000000)
            if kind == "sorting_network" and n <= 3: c.task(mod, "e_stab", [n], "%s.stable.n%d" % (kind, n))
    expect = {}
    for kind, (hdr, ty) in m6.LOW.items():
        for n, mod in m6.mods(c, kind, hdr, ty, thorough, False, only=range(0, top + 1)).items():
            name = "%s.total.n%d" % (kind, n); c.task(mod, "e_total", [n], name, gates=1); expect[name] = (mod, n, CW[n] if kind == "low_comparisons" else -1, MW[n] if kind == "low_moves" else -1)
    def post(res, report):
        import math
        for t in res["tasks"]:
            if t["name"] in expect and t["complete"]:
                mod, n, wc, wm = expect[t["name"]]; comps, moves, paths = t["counts"][:3]
                if paths != math.factorial(n): report.error("%s: %d paths for %d orders" % (t["name"], paths, math.factorial(n))); continue
                if wc >= 0 and comps > wc: report.violation(mod, "e_sum", [n, wc, wm], t["name"], "%d comparisons over all orders of %d elements, documented %d" % (comps, n, wc))
                if wm >= 0 and moves > wm: report.violation(mod, "e_sum", [n, wc, wm], t["name"], "%d moves over all orders of %d elements, documented %d" % (moves, n, wm))
    c.post = post
