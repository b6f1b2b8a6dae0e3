from sorter_table import *
def plan(c):
    thorough = c.tier == "thorough"; small = 7 if thorough else 6
    c.bounds = ["every sorter of the table x iterator categories it advertises, move-only elements, projections with std::greater<>, and integers with std::less<>/std::greater<>",
                "all keys free (every pattern of order and ties): n <= %d" % small,
                "block-symbolic keys (level<<16 | pattern, 3-4 free level bytes, so every relative order and tie of the blocks) for n up to %d" % (2000 if thorough else 1100),
                "concrete patterns with 1-2 free 16-bit keys for n up to 300"]
    c.assumptions = ["keys of larger ranges follow the stated patterns; only their levels are free"]
    for name, (hdr, ty, cat, st, tol) in S.items():
        c.module(name, "sorts.cpp", moddefs(1, ty, cat, [hdr]), api=True)
        sweep(c, name, cat, ["e_ra", "e_int", "e_rap", "e_intg", "e_bid", "e_fwd"], small, 30 if thorough else 7, SIZES + (MORE if thorough else []), name in QUAD, slim=("e_rap", "e_intg", "e_bid", "e_fwd"), adv=True)
