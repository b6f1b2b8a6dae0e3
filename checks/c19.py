"""Operations, memory and recursion of one call, against bounds derived from the documented complexities."""
import math
from sorter_table import S, ADAPTERS, combos, moddefs
from probe_table import PROBES
from cost_table import WORST, LINEAR
QUADRATIC = {"insertion", "selection", "hybrid", "l_selection"}
NL2 = {("merge", 1), ("stable_std", 1)}                       # n log^2 n without memory
LISTS = {"l_insertion": "insertion", "l_selection": "selection", "l_mel": "mel", "l_merge": "merge"}
def lg(n): return max(1.0, math.log2(n))
def fj(n): return sum(math.ceil(math.log2(3 * k / 4)) for k in range(2, n + 1))       # Ford-Johnson
def worst(name, ent, n, nomem=0):
    """bounds on comparisons, moves, steps, heap bytes"""
    L = lg(n); q = 0.56 * n * n + 4 * n
    hyb = name == "hybrid" and ent == "ra"
    if name in QUADRATIC and not hyb: return [int(q), int(1.6 * n * n + 8 * n), int(2.2 * n * n + 12 * n), 0 if name == "hybrid" else -1 if nomem else 64]
    a, m, s, h = WORST[("pdq" if hyb else name, ent, nomem)]
    K = 1.3
    c = a * K * n * L + 8 * n + 64; mv = m * K * n * L + 20 * n + 64; st = s * K * n * L + 30 * n + 64
    if (name, nomem) in NL2: mv = st = 2.2 * n * L * L + 20 * n + 64
    return [int(c), int(mv), int(st), -1 if nomem else int(h * 1.3 * n + 1024 if h else 64 + 48 * L)]
LOGDEPTH = {"quick_merge", "quick", "pdq", "std", "merge", "poplar", "spin", "block", "wiki", "wiki0", "grail", "grail_sqrt"}
def depth(name, n): return int(40 + 12 * lg(n))
DEEP = {"splay", "cartesian_tree"}
def args(n, f, m, s, p, sd, b, d): return [n, f, m, s, p, sd] + b + [d]
def plan(c):
    t = c.tier == "thorough"
    items = []                                                # (module name, entries, low category)
    for table in (S, ADAPTERS):
        for k, v in table.items():
            ty, cat, hdrs = (v[1], v[2], [v[0]]) if table is S else (v[0], v[1], v[2])
            tol = v[4] if table is S else v[3]
            c.module(k, "counts.cpp", [d for d in moddefs(0, ty, cat, hdrs) if not d.startswith("MODE")], api=True)
            items.append((k, ["fwd", "bid", "ra"][cat:], tol))
    for p in PROBES:
        if p == "par": continue                               # n^2 log n where documented, its own table below
        c.module("p_" + p, "counts.cpp", ["PROBE=%s" % p, "CAT=0", 'HDR="cpp-sort/probes/%s.h"' % p], api=True)
        items.append(("p_" + p, ["fwd", "bid", "ra"], False))
    for l, srt in LISTS.items():
        c.module(l, "counts.cpp", ["SORTER=cppsort::%s_sorter" % srt, "CAT=1", "LISTS", 'HDR="cpp-sort/sorters/%s_sorter.h"' % srt], api=True)
        items.append((l, ["list", "flist"], False))
    c.bounds = ["42 sorters and adapted sorters, 11 measures, 4 container-aware list sorters; comparisons, moves, iterator increments/decrements/jumps, peak heap bytes and call depth of one call",
                "bounds: a n log2 n + b n + k (n^2 for the sorters documented quadratic; n log^2 n without memory where documented) with a calibrated at 1.5-2 times the largest observed value",
                "inputs: block-symbolic keys (<= 4 symbolic blocks, all their order types) up to n = %d; 8 families of presorted inputs; adaptive adversary with up to 3 free choices up to n = %d" % (4000 if t else 1100, 4000)]
    for name, ents, tol in items:
        quad = name in QUADRATIC
        for e in ents:
            slow = e != ents[-1] and name[0:2] != "l_"
            dp = lambda n: 0 if name in DEEP else depth(name, n)
            def T(n, f, m, s, p, b, tag, nomem=0):
                b = list(b)
                c.task(name, "e_" + e, args(n, f, m, s, p, c.seed, b, dp(n)), "%s.%s.%s%s.n%d.s%d.p%d.m%d" % (name, e, tag, ".nomem" if nomem else "", n, s, p, m), steps=400000000)
            for nomem in (0, 1):
                if nomem and not tol: continue
                if (name, e, nomem) not in WORST and not quad: continue
                sizes = [(60, 3), (200, 2)] if quad else [(300, 3), (1100, 2)] if not t else [(100, 4), (300, 3), (700, 3), (1100, 3), (2300, 2), (4000, 2)]
                for n, m in sizes:
                    k = (1 if slow or nomem or n > 1000 else 2) * (4 if t else 1)
                    for sh, pat in combos(k, name, e, n, nomem, "cost"): T(n, 1, m, sh, pat, worst(name, e, n, nomem), "worst", nomem)
                if name.startswith("p_") and e != "ra": continue
                for n in ([200] if quad else [1000, 4000] if t else [4000 if e == ents[-1] else 1000]):
                    for b in (0, 3) if not nomem else (0,): T(n, 4, b, 0, 0, worst(name, e, n, nomem), "adversary", nomem)
                for kind in range(8):
                    n = 200 if quad else 300 if kind == 7 and not t else 1100
                    if slow and not t or nomem: continue
                    T(n, 3, 2 if kind == 7 else 4, kind, 0, worst(name, e, n, nomem), "presorted")
            for kind, (a, mv, st) in LINEAR.get((name, e), {}).items():
                for n, m in [(100, 4), (1100, 3), (4000, 2)] if not t else [(50, 4), (100, 4), (301, 4), (1100, 4), (4000, 3), (9000, 2)]:
                    if name in ("verge_heap", "verge", "stable_verge") and n < 100 or kind >= 5 and n < 1000 and name[0:2] != "p_": continue
                    if (slow or kind == 7) and not t and n != 1100: continue
                    for pat in (0, 3) if kind in (1, 3) else (0,):
                        w = worst(name, e, n) if name not in QUADRATIC else [0, 0, 0, 64]
                        b = [int(a * 1.4 * n + 32), int(mv * 1.4 * n + 2 * n + 64), int(st * 1.5 * n + 4 * n + 64), w[3]]
                        T(n, 3, 2 if kind == 7 else m, kind, pat, b, "linear")
    for n in range(1, 8 if t else 7):                          # merge insertion: the comparisons of Ford and Johnson
        c.task("merge_insertion", "e_ra", [n, 0, 0, 0, 0, 1, max(fj(n), 0) or 1, 0, 0, 0, 0], "merge_insertion.ford_johnson.free.n%d" % n, steps=100000000)
    for n in (8, 9, 11, 13, 21, 22, 40, 43, 85, 86, 171, 300):
        for sh, pat in combos(6 if t else 3, "fj", n): c.task("merge_insertion", "e_ra", [n, 1, 4 if n < 50 else 3, sh, pat, c.seed, fj(n), 0, 0, 0, 0], "merge_insertion.ford_johnson.n%d.s%d.p%d" % (n, sh, pat), steps=100000000)
        for b in (0, 4): c.task("merge_insertion", "e_ra", [n, 4, b, 0, 0, 1, fj(n), 0, 0, 0, 0], "merge_insertion.ford_johnson.adversary.n%d.b%d" % (n, b), steps=100000000)
