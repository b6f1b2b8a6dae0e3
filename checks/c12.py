def plan(c):
    th = c.tier == "thorough"; c.module("str", "comparators.cpp", ["STRORD"])
    c.bounds = ["natural_less: all pairs of strings of up to %d characters, all 256 character values; up to %d characters over {0,1,9,a} and {0,1,a,space}; all triples of up to %d characters over these" % ((4, 6, 3) if th else (3, 4, 2)),
                "std::string, string_view, vector with list, forward_list with string, std::array, char arrays, exactly sized heap storage",
                "case_insensitive_less: a character type of 4 values with any folding table (all 256^4), strings of up to %d characters in vector, list, forward_list and basic_string; global and explicit locale; plain, refined, refined then localised, and through a sorter" % (3 if th else 2),
                "char and wchar_t with the real std::ctype facets are outside: the table lookup of the C library is replaced by any table"]
    top = 4 if th else 3
    for n in range(top + 1):
        for m in range(top + 1):
            for k in (0, 6) + ((1,) if th else ()): c.task("str", "e_nat", [k, n, m, 0])
            for k in (1, 2, 3): c.task("str", "e_nat", [k, n, m, 1])
    for k in (4, 5): c.task("str", "e_nat", [k, 3, 3, 0])
    for n, m in ((4, 4), (4, 3), (3, 4), (2, 4), (4, 1)) + (((5, 5), (5, 4), (6, 6), (6, 5), (3, 6)) if th else ((5, 4), (4, 5))):
        for a in (1, 2): c.task("str", "e_nat", [6, n, m, a])
    for n, m, l in ((1, 1, 1), (2, 1, 2), (2, 2, 2), (2, 2, 1), (1, 2, 2), (3, 2, 1), (3, 1, 2)) + (((3, 3, 2), (3, 2, 3), (2, 3, 3), (3, 3, 3)) if th else ()):
        for a in (1, 2): c.task("str", "e_nat3", [6, n, m, l, a])
    c.task("str", "e_nat3", [6, 1, 1, 1, 0]); c.task("str", "e_nat3", [6, 2, 1, 1, 0])
    for k in range(7):
        for w in (0, 1):
            if k == 6 and w == 0: continue
            for n in range((3 if th else 2) + 1):
                for m in range((3 if th else 2) + 1): c.task("str", "e_ci", [k, w, n, m])
    c.task("str", "e_ciown", [0])
