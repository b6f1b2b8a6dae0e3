def plan(c):
    t = c.tier == "thorough"
    c.bounds = {"index pairs": "every sequence of up to two pairs over 3 or 4 elements, given longer sequences of 5 and (up to 32-bit values) 7 pairs", "element types": "int8_t, uint16_t, int, uint64_t, float, double, bool, classes", "values": "every value of the element type", "comparators": "less, greater, ranges:: versions, custom ones", "ranges": "up to 8 elements"}
    for std in (17, 20):
        for g in range(8):
            if std == 20 and g == 7: continue
            mod = "pairs.g%d.%d" % (g, std); c.module(mod, "helpers.cpp", ["PART=1", "G=%d" % g], flags=["-std=c++%d" % std], api=True)
            for k in range(8 if g == 7 else 11 if std == 20 else 5):
                if std == 20 and k < 5 and not t: continue
                for un in (0, 1):
                    for n in range(4 if g in (3, 5) or g == 7 and k == 6 else 5):        # 64-bit values: shorter sequences
                        for form in range(2 if n < 3 else 6 if t else 3): c.task(mod, "e_pairs", [un, n, form, k], "%s.%d.%d.%d.%d" % (mod, un, n, form, k))
    for std in (14, 17, 20):
        m = "size.%d" % std
        if std != 14: c.module(m, "helpers.cpp", ["PART=2"], flags=["-std=c++%d" % std], api=True)
        if std != 14:
            for w in range(10): c.task(m, "e_size", [w], "%s.%d" % (m, w))
        m = "dispatch.%d" % std; c.module(m, "helpers.cpp", ["PART=3"], flags=["-std=c++%d" % std], api=True)
        for w in range(7): c.task(m, "e_dispatch", [w], "%s.%d" % (m, w))
