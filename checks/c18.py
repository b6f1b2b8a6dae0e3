from sorter_table import S, ADAPTERS, QUAD, combos, moddefs
GLOBS = {n: "cppsort::" + n + "_sort" for n in S}; GLOBS.update({"d_ary_heap4": None, "d_ary_heap3": None, "grail_sqrt": None, "wiki0": None})
RANGED = ("quick_merge", "slab", "quick", "cartesian_tree", "mel", "splay", "merge", "verge", "drop_merge")      # with range overloads of their own
MORE = {"default": ("cppsort::default_sorter", 0, ["sorters/default_sorter.h"], False),
        "stable_hybrid": ("cppsort::stable_adapter<cppsort::hybrid_adapter<cppsort::merge_sorter,cppsort::heap_sorter>>", 0, ["sorters/merge_sorter.h", "sorters/heap_sorter.h", "adapters/hybrid_adapter.h", "adapters/stable_adapter.h"], False)}
NCASES = {0: 2, 1: 2, 2: 3, 3: 4, 4: 5}
def plan(c):
    t = c.tier == "thorough"
    c.bounds = ["%d sorters and adapter stacks; per group of functions (none, std::less<>, identity; std::greater<>; pointers to members; function pointers; objects with state; projection and comparator) every call form: iterators, lvalue, const and rvalue ranges with and without size(), global instances, conversions to function pointers, cppsort::sort and stable_sort, stable_adapter, repeated calls" % (len(S) + len(ADAPTERS) + len(MORE)),
                "n <= %d with all keys free; block-symbolic keys up to %d" % (5 if t else 4, 300 if t else 80),
                "sorter_facade on 13 minimal implementations x 24 function groups x 11 call forms (C++17 and C++20), n <= %d, all keys and the state of the functions free" % (4 if t else 3)]
    def add(name, defs, cat, gs, quad=False, slim=False):
        for g in gs:
            mod = "%s.g%d" % (name, g); c.module(mod, "facade.cpp", ["PART=1", "G=%d" % g] + defs, api=True)
            for w in range(NCASES[g]):
                for n in range(6 if t else 5):
                    if not t and slim and n == 4 and w: continue
                    c.task(mod, "e_calls", [w, n, 0, 0, 0, 0, 1], "%s.%d.free.n%d" % (mod, w, n), steps=20000000)
                for n, m in [(17, 3), (45, 3), (80, 2)] + ([(33, 3), (140, 3), (300, 2)] if t else []):
                    if quad and n > 140 or not t and slim and n == 80 and w: continue
                    for sh, pat in combos(2 if t else 1, name, g, w, n): c.task(mod, "e_calls", [w, n, 1, m, sh, pat, c.seed], "%s.%d.n%d.s%d.p%d" % (mod, w, n, sh, pat), steps=50000000)
    for name, e in S.items():
        d = moddefs(0, e[1], e[2], [e[0]])
        if GLOBS[name]: d.append("GLOB=" + GLOBS[name])
        add(name, d, e[2], range(5) if t or name in RANGED or name in ("heap", "pdq", "spin", "std") else (0, 2, 4), name in QUAD, name not in RANGED)
    for name, e in list(ADAPTERS.items()) + list(MORE.items()):
        d = moddefs(0, e[0], e[1], e[2]) + ["ADAPTER"]
        if name == "default": d += ["DEFAULT", "GLOBS=1"]
        if name.startswith("oop"): d.append("NOTRAITS")
        add(name, d, e[1], range(4) if t and name.startswith("oop") else range(5) if t or name == "default" else (0, 1, 2) , slim=True)
    for g in range(13):
        for std, forms in (("17", range(16)), ("20", range(16, 24))):
            mod = "facade%d.%s" % (g, std); c.module(mod, "facade.cpp", ["PART=2", "G=%d" % g], flags=["-std=c++" + std], api=True)
            for f in forms:
                for n in range(5) if t else (0, 1, 3): c.task(mod, "e_facade", [f, n], "%s.%d.n%d" % (mod, f, n), steps=20000000)
    # C++20: the function objects and ranges of the standard library
    for name, hdrs, ty, cat in [(n, [e[0]], e[1], e[2]) for n, e in S.items()] + [(n, e[2], e[0], e[1]) for n, e in list(ADAPTERS.items()) + list(MORE.items()) if not n.startswith("oop") or t]:
        mod = "r20." + name; c.module(mod, "cpp20.cpp", moddefs(0, ty, cat, hdrs), flags=["-std=c++20"], api=True)
        for w in range(8):
            for n in range(6 if t else 5):
                if t or n in (0, 2, 4): c.task(mod, "e_r20", [w, n, 0, 0, 0, 0, 1], "%s.%d.free.n%d" % (mod, w, n), steps=20000000)
            for n, m in [(18, 3), (60, 3)] + ([(33, 3), (140, 3), (300, 2)] if t else []):
                if name in QUAD and n > 140: continue
                for sh, pat in combos(2 if t else 1, name, w, n): c.task(mod, "e_r20", [w, n, 1, m, sh, pat, c.seed], "%s.%d.n%d.s%d.p%d" % (mod, w, n, sh, pat), steps=50000000)
