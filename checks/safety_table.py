"""What sorts.cpp does not call: probes, sorted views, the indirect adapter, type-specific sorters, apply_permutation, fixed-size sorters."""
from sorter_table import combos, moddefs, PATS
from probe_table import PROBES
# name: (kind, type, lowest category, headers)
SAFE = {"probe_" + p: (1, "std::decay_t<decltype(cppsort::probe::%s)>" % p, 0, ["probes/%s.h" % p]) for p in PROBES}
for s in ("merge", "pdq", "heap"): SAFE["sorted_iterators_" + s] = (1, "cppsort::utility::sorted_iterators<cppsort::%s_sorter>" % s, 0, ["sorters/%s_sorter.h" % s, "utility/sorted_iterators.h"])
for s in ("merge", "pdq"): SAFE["sorted_indices_" + s] = (1, "cppsort::utility::sorted_indices<cppsort::%s_sorter>" % s, 2, ["sorters/%s_sorter.h" % s, "utility/sorted_indices.h"])
for s in ("merge", "heap", "quick", "insertion"): SAFE["ind_" + s] = (2, "cppsort::indirect_adapter<cppsort::%s_sorter>" % s, 0, ["sorters/%s_sorter.h" % s, "adapters/indirect_adapter.h"])
for s in ("ska", "spread"): SAFE[s] = (3, "cppsort::%s_sorter" % s, 2, ["sorters/%s_sorter.h" % s])
SAFE["apply_permutation"] = (4, "int", 2, ["utility/apply_permutation.h"])
# fixed-size sorters, through sorts.cpp: name: (type, size, headers)
FIXED = {}
for n in (5, 9, 13): FIXED["low_comparisons%d" % n] = ("cppsort::low_comparisons_sorter<%d>" % n, n, ["fixed/low_comparisons_sorter.h"])
for n in (5, 8, 20): FIXED["low_moves%d" % n] = ("cppsort::low_moves_sorter<%d>" % n, n, ["fixed/low_moves_sorter.h"])
for n in (7, 13, 24): FIXED["sorting_network%d" % n] = ("cppsort::sorting_network_sorter<%d>" % n, n, ["fixed/sorting_network_sorter.h"])
for t, n in (("merge_exchange_network", 11), ("odd_even_merge_network", 16)): FIXED["%s%d" % (t, n)] = ("cppsort::%s_sorter<%d>" % (t, n), n, ["fixed/%s_sorter.h" % t])
def safety(c, smode, ents=("e_ra", "e_rap", "e_bid", "e_fwd", "e_fwdp"), quick=(0, 1, 2, 3, 4, 9, 18, 33, 70)):
    t = c.tier == "thorough"
    for name, (kind, ty, cat, hdrs) in SAFE.items():
        c.module(name, "safety.cpp", [d for d in moddefs(0, ty, cat, hdrs) if not d.startswith("MODE=")] + ["KIND=%d" % kind, "SMODE=%d" % smode] + (["TOL"] if name in ("probe_dis", "probe_mono", "probe_osc", "probe_runs") else []))
        for e in ents:
            if e == "e_bid" and cat > 1 or e.startswith("e_fwd") and cat > 0: continue
            proj = e in ("e_rap", "e_fwdp") or kind == 3
            for kinds in ([0] if smode == 3 else [4] if smode == 5 or kind == 4 else [2, 4] if kind == 3 else [2] if kind == 1 and proj else [1] if kind == 1 else [2, 6] if proj else [1, 5]):
                free = 5 if smode == 3 and e in ("e_ra", "e_fwd") else 4 if smode == 3 or kinds < 3 and e in ("e_ra", "e_fwd") else 3
                for n in range(1 if smode > 3 else 0, free + 1 + t): c.task(name, e, [n, 0, 0, 0, 0, 1, kinds], "%s.%s.k%d.free.n%d" % (name, e, kinds, n), steps=20000000)
                for n, m in [(9, 3), (18, 2), (36, 2), (70, 1)] + ([(140, 2), (300, 1)] if smode != 4 or t else []):
                    if name == "probe_osc" and n > 70: continue
                    if kind == 3 and n > 70: m = 1
                    for sh, pat in combos(4 if t else 2, name, e, n, kinds): c.task(name, e, [n, 1, m, sh, pat, c.seed, kinds], "%s.%s.k%d.n%d.s%d.p%d" % (name, e, kinds, n, sh, pat), steps=30000000)
def fixed(c, mode, ents):
    t = c.tier == "thorough"
    for name, (ty, n, hdrs) in FIXED.items():
        c.module(name, "sorts.cpp", moddefs(mode, ty, 2, hdrs))
        for e, extra in ents:
            if n <= 5: c.task(name, e, [n, 0, 0, 0, 0, 1] + extra, "%s.%s.%s.free.n%d" % (name, e, "_".join(map(str, extra)), n), steps=20000000)
            for sh, pat in combos(10 if t else 4, name, e, *extra): c.task(name, e, [n, 1, 3, sh, pat, c.seed] + extra, "%s.%s.%s.n%d.s%d.p%d" % (name, e, "_".join(map(str, extra)), n, sh, pat), steps=20000000)
