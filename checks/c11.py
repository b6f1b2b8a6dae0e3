def plan(c):
    c.module("ord", "comparators.cpp", ["ORD"])
    c.bounds = ["float and double: all pairs of bit patterns, for total, weak and partial less and greater, in 4 combinations of value categories, against the order of an integer computed from the bits (from which the axioms of a weak order follow); transitivity of the partial order also directly on all triples",
                "all pairs of values of bool, every integer and character type up to __int128; user types with total, weak or partial orders of their own",
                "long double is outside (x87 values are not encoded); NaNs of the same sign are one equivalence class of the total order, as the library documents"]
    for d in (0, 1):
        for w in range(3):
            for h in range(4): c.task("ord", "e_fp", [d, w, h])
        c.task("ord", "e_ax", [d, 2])
    for t in range(16):
        for h in range(4): c.task("ord", "e_int", [t, h])
    c.task("ord", "e_user", [0])
