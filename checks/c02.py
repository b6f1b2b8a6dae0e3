from sorter_table import *
A = "adapters/"
def plan(c):
    thorough = c.tier == "thorough"; small = 7 if thorough else 6
    c.bounds = ["every natively stable sorter, stable_t of every other sorter, and the stable adapters around stable sorters",
                "all keys free (every pattern of order and ties): n <= %d" % small,
                "block-symbolic keys (3-4 free levels; patterns with ties) for n up to %d" % (2000 if thorough else 1100),
                "concrete patterns with 1-2 free 16-bit keys for n up to 300"]
    c.assumptions = ["keys of larger ranges follow the stated patterns; only their levels are free"]
    T = {}
    for name, (hdr, ty, cat, st, tol) in S.items():
        if st: T[name] = (ty, cat, [hdr])
        elif name != "d_ary_heap3": T["stable_" + name] = ("cppsort::stable_adapter<%s>" % ty, cat, [hdr, A + "stable_adapter.h"])
    ins, mrg = "sorters/insertion_sorter.h", "sorters/merge_sorter.h"
    T["make_stable_pdq"] = ("cppsort::make_stable<cppsort::pdq_sorter>", 2, ["sorters/pdq_sorter.h", A + "stable_adapter.h"])
    T["indirect_merge"] = ("cppsort::indirect_adapter<cppsort::merge_sorter>", 0, [mrg, A + "indirect_adapter.h"])
    T["schwartz_merge"] = ("cppsort::schwartz_adapter<cppsort::merge_sorter>", 0, [mrg, A + "schwartz_adapter.h"])
    T["oop_merge"] = ("cppsort::out_of_place_adapter<cppsort::merge_sorter>", 0, [mrg, A + "out_of_place_adapter.h"])
    T["counting_insertion"] = ("cppsort::counting_adapter<cppsort::insertion_sorter>", 1, [ins, A + "counting_adapter.h"])
    T["hybrid_merge_tim"] = ("cppsort::hybrid_adapter<cppsort::merge_sorter,cppsort::tim_sorter>", 0, [mrg, "sorters/tim_sorter.h", A + "hybrid_adapter.h"])
    T["stable_hybrid"] = ("cppsort::stable_adapter<cppsort::hybrid_adapter<cppsort::quick_merge_sorter,cppsort::pdq_sorter>>", 0, ["sorters/quick_merge_sorter.h", "sorters/pdq_sorter.h", A + "hybrid_adapter.h", A + "stable_adapter.h"])
    T["stable_self_sort"] = ("cppsort::stable_adapter<cppsort::self_sort_adapter<cppsort::heap_sorter>>", 2, ["sorters/heap_sorter.h", A + "self_sort_adapter.h", A + "stable_adapter.h"])
    T["stable_verge"] = ("cppsort::stable_adapter<cppsort::verge_adapter<cppsort::poplar_sorter>>", 2, ["sorters/poplar_sorter.h", A + "verge_adapter.h", A + "stable_adapter.h"])
    T["stable_drop_merge"] = ("cppsort::stable_adapter<cppsort::drop_merge_adapter<cppsort::heap_sorter>>", 2, ["sorters/heap_sorter.h", A + "drop_merge_adapter.h", A + "stable_adapter.h"])
    T["stable_small_array"] = ("cppsort::stable_adapter<cppsort::split_adapter<cppsort::heap_sorter>>", 2, ["sorters/heap_sorter.h", A + "split_adapter.h", A + "stable_adapter.h"])
    for name, (ty, cat, hdrs) in T.items():
        c.module(name, "sorts.cpp", moddefs(2, ty, cat, hdrs))
        native = name in S
        per = 30 if thorough else (12 if native else 4)
        sweep(c, name, cat, ["e_ra", "e_rap", "e_bid", "e_fwd"], small if native or thorough else 5, per, SIZES + (MORE if thorough else []), name in QUAD or name == "stable_selection" or name == "counting_insertion", slim=("e_rap", "e_bid", "e_fwd"), big=native or thorough)
    # is_stable on ranges of every kind, for adapters that sort something else than the range they are given
    for g in range(4): c.module("claims%d" % g, "views.cpp", ["PART=10", "G=%d" % g], api=True)
    c.bounds.append("is_stable against the result for 22 adapter stacks on list, forward_list and vector, 5 call forms: n <= %d with all keys free, block-symbolic n = 12, 24, 50" % (5 if thorough else 4))
    for w in range(22):
        for r in range(3):
            for f in range(5):
                for n in [5, 4, 2, 1, 0] if thorough else [4, 3, 0] if f in (0, 3) else [3]: c.task("claims%d" % (w % 4), "e_claim", [w, r, f, n, 0, 0, 0, 0, 1], "e_claim.%d.%d.%d.free.n%d" % (w, r, f, n), steps=20000000)
                for n, m in [(12, 3), (24, 3), (50, 2)] if thorough or f in (0, 3) else [(24, 3)]:
                    for sh, pat in combos(3 if thorough else 1, "claim", w, r, f, n): c.task("claims%d" % (w % 4), "e_claim", [w, r, f, n, 1, m, sh, [0, 4, 7, 12, 13, 17][pat % 6], c.seed], "e_claim.%d.%d.%d.n%d.s%d.p%d" % (w, r, f, n, sh, pat), steps=50000000)
