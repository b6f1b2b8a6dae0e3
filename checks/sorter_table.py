"""The comparison sorters, the lowest iterator category they advertise (0 forward, 1 bidirectional, 2 random-access)."""
import zlib
# name: (header, type, category, stable, tolerates memory exhaustion, worst-case class)
S = {
 "adaptive_shivers": ("sorters/adaptive_shivers_sorter.h", "cppsort::adaptive_shivers_sorter", 2, True, False),
 "block":            ("sorters/block_sorter.h", "cppsort::block_sorter<>", 2, True, True),
 "cartesian_tree":   ("sorters/cartesian_tree_sorter.h", "cppsort::cartesian_tree_sorter", 0, False, False),
 "d_ary_heap4":      ("sorters/d_ary_heap_sorter.h", "cppsort::d_ary_heap_sorter<4>", 2, False, True),
 "d_ary_heap3":      ("sorters/d_ary_heap_sorter.h", "cppsort::d_ary_heap_sorter<3>", 2, False, True),
 "drop_merge":       ("sorters/drop_merge_sorter.h", "cppsort::drop_merge_sorter", 1, False, False),
 "grail":            ("sorters/grail_sorter.h", "cppsort::grail_sorter<>", 2, True, True),
 "heap":             ("sorters/heap_sorter.h", "cppsort::heap_sorter", 2, False, True),
 "insertion":        ("sorters/insertion_sorter.h", "cppsort::insertion_sorter", 1, True, True),
 "mel":              ("sorters/mel_sorter.h", "cppsort::mel_sorter", 0, False, False),
 "merge_insertion":  ("sorters/merge_insertion_sorter.h", "cppsort::merge_insertion_sorter", 2, False, False),
 "merge":            ("sorters/merge_sorter.h", "cppsort::merge_sorter", 0, True, True),
 "pdq":              ("sorters/pdq_sorter.h", "cppsort::pdq_sorter", 2, False, True),
 "poplar":           ("sorters/poplar_sorter.h", "cppsort::poplar_sorter", 2, False, False),
 "quick_merge":      ("sorters/quick_merge_sorter.h", "cppsort::quick_merge_sorter", 0, False, True),
 "quick":            ("sorters/quick_sorter.h", "cppsort::quick_sorter", 0, False, True),
 "selection":        ("sorters/selection_sorter.h", "cppsort::selection_sorter", 0, False, True),
 "slab":             ("sorters/slab_sorter.h", "cppsort::slab_sorter", 1, False, False),
 "smooth":           ("sorters/smooth_sorter.h", "cppsort::smooth_sorter", 2, False, True),
 "spin":             ("sorters/spin_sorter.h", "cppsort::spin_sorter", 2, True, False),
 "splay":            ("sorters/splay_sorter.h", "cppsort::splay_sorter", 0, True, False),
 "split":            ("sorters/split_sorter.h", "cppsort::split_sorter", 2, False, True),
 "std":              ("sorters/std_sorter.h", "cppsort::std_sorter", 2, False, True),
 "tim":              ("sorters/tim_sorter.h", "cppsort::tim_sorter", 2, True, False),
 "verge":            ("sorters/verge_sorter.h", "cppsort::verge_sorter", 1, False, False),
 "grail_sqrt":       ("sorters/grail_sorter.h", "cppsort::grail_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::sqrt>>", 2, True, False),
 "wiki0":            ("sorters/wiki_sorter.h", "cppsort::wiki_sorter<cppsort::utility::fixed_buffer<0>>", 2, True, True),
 "wiki":             ("sorters/wiki_sorter.h", "cppsort::wiki_sorter<>", 2, True, True),
}
def h(*a): return zlib.crc32(":".join(map(str, a)).encode())
SHAPES, PATS = 12, 18
def combos(count, *salt):
    """`count` (shape, pattern) pairs, spread over the grid deterministically"""
    out = []; x = h(*salt)
    for i in range(count):
        x = (x + 37) % (SHAPES * PATS)       # 37 is coprime with 216
        out.append((x % SHAPES, x // SHAPES))
    return out
def defs(name, mode, table=None):
    e = (table or S)[name]
    return ['HDR="cpp-sort/%s"' % e[0], "SORTER=%s" % e[1], "CAT=%d" % e[2], "MODE=%d" % mode]

SIZES = [(8, 4), (11, 4), (16, 4), (17, 4), (25, 4), (33, 4), (42, 4), (66, 3), (81, 3), (130, 3), (200, 3), (300, 3), (600, 3), (1100, 3)]
MORE = [(13, 4), (20, 4), (31, 4), (32, 4), (37, 4), (64, 3), (65, 3), (100, 3), (128, 3), (129, 3), (150, 3), (257, 3), (420, 3), (800, 3), (2000, 3)]
QUAD = ("insertion", "selection")
FEW = (120, 260)
def sweep(c, name, cat, ents, small, per, sizes, quad=False, slim=(), extra=(), inserts=True, maxn=10**9, big=True, adv=False):
    """the tasks of one sorter: all keys free up to `small`, then block-symbolic keys for every larger size"""
    thorough = c.tier == "thorough"; extra = list(extra); few = FEW if name in ("wiki0", "grail", "grail_sqrt", "wiki", "block") else ()
    for e in ents:
        if e == "e_bid" and cat > 1 or e == "e_fwd" and cat > 0: continue
        for n in range(0, small + 1):
            if n == small and e in slim and not thorough: continue
            c.task(name, e, [n, 0, 0, 0, 0, 1] + extra, "%s.%s.free.n%d" % (name, e, n))
        for n, m in sizes:
            if n > maxn or quad and n > 200: continue
            k = max(1, per // 3) if e in slim else per
            if n > 500: k = max(1, k // 2)
            for sh, pat in combos(k, name, e, n, c.pid): c.task(name, e, [n, 1, m, sh, pat, c.seed] + extra, "%s.%s.n%d.s%d.p%d" % (name, e, n, sh, pat), steps=30000000)
        for n in (129, 140, 171, 240, 333, 610) if e in ("e_ra", "e_bid") and not quad else (140, 171):       # runs of different lengths in any order
            if n > maxn or n > 200 and e in slim and not thorough: continue
            for pat in (18, 1) if e not in slim else (18,): c.task(name, e, [n, 1, 4 if n < 500 else 3, 12, pat, c.seed] + extra, "%s.%s.runs.n%d.p%d" % (name, e, n, pat), steps=60000000)
        if big and not quad:
            for n in (2304, 4608) if thorough else (2304,):
                if n > maxn or e != "e_ra" and not thorough: continue
                for pat in range(PATS): c.task(name, e, [n, 1, 2, (0, 7)[pat % 2] if not thorough else pat % SHAPES, pat, c.seed] + extra, "%s.%s.big.n%d.p%d" % (name, e, n, pat), steps=60000000)
        if big and not quad and e == "e_ra":      # new elements at the end of sorted, descending and tied halves
            for n in (300, 2304, 2400) if name == "spin" or thorough else (300,):
                if n > maxn: continue
                for sh, pat, m in ((0, 19, 1), (13, 0, 3), (13, 19, 2), (13, 20, 2), (0, 20, 1), (13, 21, 2)): c.task(name, e, [n, 1, m, sh, pat, c.seed] + extra, "%s.%s.tails.n%d.s%d.p%d" % (name, e, n, sh, pat), steps=60000000)
        if e == "e_ra" and adv:
            for n in (60, 200, 500, 1000) if thorough else (60, 300):
                if quad and n > 200: continue
                for b in (0, 3, 6) if thorough else (0, 2): c.task(name, "e_adv", [n, 3, b, 0, 0, 0], "%s.adversary.n%d.b%d" % (name, n, b), steps=60000000)
        if few:
            for n in few:
                for sh in range(SHAPES):
                    c.task(name, e, [n, 1, 3, sh, 0, c.seed] + extra, "%s.%s.few.n%d.s%d" % (name, e, n, sh), steps=60000000)
                    if e == "e_ra": c.task(name, e, [n, 1, 2, sh, 7, c.seed] + extra, "%s.%s.few16.n%d.s%d" % (name, e, n, sh), steps=60000000)
        if inserts:
            for n, fm in ((20, 2), (70, 1), (300, 1)):
                if n > maxn or quad and n > 100: continue
                for sh, pat in combos(3 if thorough else 1, name, e, n, "f2", c.pid): c.task(name, e, [n, 2, fm, sh % 4, pat, c.seed] + extra, "%s.%s.insert.n%d.s%d.p%d" % (name, e, n, sh % 4, pat), steps=30000000)
def moddefs(mode, ty, cat, hdrs):
    d = ["SORTER=%s" % ty, "CAT=%d" % cat, "MODE=%d" % mode]
    for i, h_ in enumerate(hdrs): d.append('HDR%s="cpp-sort/%s"' % ("" if i == 0 else str(i + 1), h_))
    return d

_A = "adapters/"
ADAPTERS = {   # name: (type, category, headers, tolerant)
 "stable_pdq": ("cppsort::make_stable<cppsort::pdq_sorter>", 2, ["sorters/pdq_sorter.h", _A + "stable_adapter.h"], False),
 "stable_quick_merge": ("cppsort::stable_adapter<cppsort::quick_merge_sorter>", 0, ["sorters/quick_merge_sorter.h", _A + "stable_adapter.h"], False),
 "stable_std": ("cppsort::stable_adapter<cppsort::std_sorter>", 2, ["sorters/std_sorter.h", _A + "stable_adapter.h"], True),
 "stable_verge": ("cppsort::stable_adapter<cppsort::verge_adapter<cppsort::poplar_sorter>>", 2, ["sorters/poplar_sorter.h", _A + "verge_adapter.h", _A + "stable_adapter.h"], False),
 "verge_heap": ("cppsort::verge_adapter<cppsort::heap_sorter>", 2, ["sorters/heap_sorter.h", _A + "verge_adapter.h"], False),
 "indirect_merge": ("cppsort::indirect_adapter<cppsort::merge_sorter>", 0, ["sorters/merge_sorter.h", _A + "indirect_adapter.h"], False),
 "indirect_quick": ("cppsort::indirect_adapter<cppsort::quick_sorter>", 0, ["sorters/quick_sorter.h", _A + "indirect_adapter.h"], False),
 "schwartz_merge": ("cppsort::schwartz_adapter<cppsort::merge_sorter>", 0, ["sorters/merge_sorter.h", _A + "schwartz_adapter.h"], False),
 "schwartz_pdq": ("cppsort::schwartz_adapter<cppsort::pdq_sorter>", 2, ["sorters/pdq_sorter.h", _A + "schwartz_adapter.h"], False),
 "oop_pdq": ("cppsort::out_of_place_adapter<cppsort::pdq_sorter>", 0, ["sorters/pdq_sorter.h", _A + "out_of_place_adapter.h"], False),
 "oop_merge": ("cppsort::out_of_place_adapter<cppsort::merge_sorter>", 0, ["sorters/merge_sorter.h", _A + "out_of_place_adapter.h"], False),
 "counting_smooth": ("cppsort::counting_adapter<cppsort::smooth_sorter>", 2, ["sorters/smooth_sorter.h", _A + "counting_adapter.h"], True),
 "hybrid": ("cppsort::hybrid_adapter<cppsort::merge_sorter,cppsort::insertion_sorter,cppsort::pdq_sorter>", 0, ["sorters/merge_sorter.h", "sorters/insertion_sorter.h", "sorters/pdq_sorter.h", _A + "hybrid_adapter.h"], True),
 "drop_merge_heap": ("cppsort::drop_merge_adapter<cppsort::heap_sorter>", 2, ["sorters/heap_sorter.h", _A + "drop_merge_adapter.h"], False),
 "drop_merge_merge": ("cppsort::drop_merge_adapter<cppsort::merge_sorter>", 1, ["sorters/merge_sorter.h", _A + "drop_merge_adapter.h"], False),
 "split_poplar": ("cppsort::split_adapter<cppsort::poplar_sorter>", 2, ["sorters/poplar_sorter.h", _A + "split_adapter.h"], False),
 "self_sort": ("cppsort::self_sort_adapter<cppsort::quick_merge_sorter>", 0, ["sorters/quick_merge_sorter.h", _A + "self_sort_adapter.h"], True),
 "small_array": ("cppsort::split_adapter<cppsort::merge_insertion_sorter>", 2, ["sorters/merge_insertion_sorter.h", _A + "split_adapter.h"], False),
}
