INTS = dict(bool="bool", schar="signed char", uchar="unsigned char", char="char", short="short", ushort="unsigned short", int="int", uint="unsigned", long="long", ulong="unsigned long", c16="char16_t", c32="char32_t", wchar="wchar_t")
SKA = dict(INTS, i128="__int128", u128="unsigned __int128", float="float", double="double", ptr="int*", pair_cs="std::pair<signed char,unsigned short>", pair_fi="std::pair<float,int>", pair_nest="std::pair<std::pair<bool,short>,signed char>",
    tup="std::tuple<short,bool,unsigned char>", vint="std::vector<short>", vchar="std::vector<char>", vfloat="std::vector<float>")
FLATOUT = ("pair", "tup", "v")
def alias(t): return t.replace(",", "_COMMA_") if 0 else t
def plan(c):
    thorough = c.tier == "thorough"
    pats = range(0, 13); c.bounds = [
        "ska_sorter on 21 key types (all integer types, __int128, float, double, pointers, pairs, nested pairs, tuples, vectors of short, char and float) and strings; spread_sorter on integers, floats and strings; counting_sorter on all integer types",
        "all bits of every key free for n <= 4 (2-3 for wide or composite types); 13 bit patterns with 1-2 keys free (all bits, or under a mask) around the sizes where the algorithms switch: 127, 128, 130, 1024 (ska_sorter), 999/1000, 1002, 2100 (spread_sorter)",
        "counting_sorter: all keys free in windows of up to 64 values at both ends, around zero and in the middle of the type; keys near both ends at once (the range may not be representable: bad_alloc is accepted for types over 16 bits)",
        "strings: up to 2 words with a free character or length among 130-300 (ska) or 1005 (spread) words of 9 shapes; up to 3 words with all characters and lengths (<= 3) free; ascending, descending, string views, projections",
        "counting_sorter and spread_sorter (strings) are also compiled as C++20, called with std::ranges::greater",
        "NaN is excluded"]
    def flat(k): return [] if k.startswith(FLATOUT) else ["FLAT"]
    # ska_sorter: threshold 128 (radix), 1024 (byte sort)
    for k, t in SKA.items():
        mod = "ska_" + k; c.module(mod, "typed.cpp", ["SO=cppsort::ska_sorter", 'HDR="cpp-sort/sorters/ska_sorter.h"', "TY=%s" % t] + flat(k))
        sweep(c, mod, k, thorough, 128, 1024, [0, 1, 9])
    for k, t in INTS.items():
        mod = "spread_" + k; c.module(mod, "typed.cpp", ["SO=cppsort::spread_sorter", 'HDR="cpp-sort/sorters/spread_sorter.h"', "TY=%s" % t] + flat(k))
        sweep(c, mod, k, thorough, 1000, 2100, [0, 1, 9])
    for k, t in (("float", "float"), ("double", "double")):
        mod = "spread_" + k; c.module(mod, "typed.cpp", ["SO=cppsort::spread_sorter", 'HDR="cpp-sort/sorters/spread_sorter.h"', "TY=%s" % t, "FLAT"])
        sweep(c, mod, k, thorough, 1000, 2100, [0, 1, 9])
    for k, t in INTS.items():
        mod = "count_" + k; c.module(mod, "typed.cpp", ["SO=cppsort::counting_sorter", 'HDR="cpp-sort/sorters/counting_sorter.h"', "TY=%s" % t, "FLAT", "DESC", "NOPROJ", "COUNTING"])
        for how in (0, 2, 3, 4):
            for which in range(5):
                if k == "bool" and which: continue
                lb = 1 if k == "bool" else 2
                for n in (0, 1, 2, 3) + ((4,) if thorough else ()): c.task(mod, "e_cnt", [how, n, which, lb], "%s.free.h%d.w%d.n%d" % (mod, how, which, n))
                if k != "bool": c.task(mod, "e_cnt", [how, 2, which, 6 if thorough else 4], "%s.wide.h%d.w%d" % (mod, how, which))
            if k not in ("bool",):
                for n in (2, 3) if k not in ("short", "ushort", "c16") else (): c.task(mod, "e_far", [how, n], "%s.far.h%d.n%d" % (mod, how, n))
                if k in ("short", "ushort", "c16") and how in (0, 4): c.task(mod, "e_far", [how, 2], "%s.far.h%d.n2" % (mod, how), steps=20000000)
                for pat, n in (((4, 80), (9, 40), (5, 40)) if k in ("uint", "ulong", "c32", "c16", "uchar", "ushort") else ((1, 60), (4, 80), (9, 40))): c.task(mod, "e_pat", [how, n, pat, 2 if thorough else 1, 2], "%s.pat.h%d.p%d" % (mod, how, pat))
    for so, hdr, desc in (("ska_sorter", "ska_sorter.h", []), ("spread_sorter", "spread_sorter.h", ["DESC", "VIEW"])):
        mod = so[:3] + "_str"; c.module(mod, "typed.cpp", ["SO=cppsort::" + so, 'HDR="cpp-sort/sorters/%s"' % hdr, "STR"] + desc)
        for how in (0, 2) + ((1, 3, 4) if desc else ()):
            for pat in range(9):
                for n in (((130, 300) if not thorough else (127, 128, 130, 300, 1030)) if so == "ska_sorter" else ((1005,) if not thorough else (999, 1000, 1005, 1400))):
                    c.task(mod, "e_str", [how, n, pat, 2, 3], "%s.h%d.p%d.n%d.two" % (mod, how, pat, n), steps=60000000)
                    if thorough or how == 0: c.task(mod, "e_str", [how, n, pat, 1, 0 if n < 1000 or thorough else 1], "%s.h%d.p%d.n%d.one" % (mod, how, pat, n), steps=60000000)
                    if thorough or pat in (1, 3): c.task(mod, "e_str", [how, n, pat, 1, 2], "%s.h%d.p%d.n%d.len" % (mod, how, pat, n), steps=60000000)
            if how in (0, 1):
                for n, l in ((2, 3), (3, 2)) + (((4, 2),) if thorough else ()): c.task(mod, "e_strfree", [how, n, l], "%s.free.h%d.n%d.l%d" % (mod, how, n, l))
    # C++20: std::ranges::greater takes the place of std::greater<>
    for k in ("schar", "int", "ulong") + (("ushort", "char", "long") if thorough else ()):
        mod = "count20_" + k; c.module(mod, "typed.cpp", ["SO=cppsort::counting_sorter", 'HDR="cpp-sort/sorters/counting_sorter.h"', "TY=%s" % INTS[k], "FLAT", "DESC", "NOPROJ", "COUNTING"], flags=["-std=c++20"], api=True)
        for how in (0, 2, 4):
            for which in range(5): c.task(mod, "e_cnt", [how, 3, which, 2], "%s.free.h%d.w%d" % (mod, how, which))
            c.task(mod, "e_pat", [how, 40, 5, 1, 2], "%s.pat.h%d" % (mod, how))
    c.module("spr20_str", "typed.cpp", ["SO=cppsort::spread_sorter", 'HDR="cpp-sort/sorters/spread_sorter.h"', "STR", "DESC", "VIEW"], flags=["-std=c++20"], api=True)
    for how in (1, 2, 4):
        for pat in (0, 3, 6): c.task("spr20_str", "e_str", [how, 1005, pat, 2, 3], "spr20_str.h%d.p%d.two" % (how, pat), steps=60000000)
    c.task("spr20_str", "e_strfree", [1, 2, 3], "spr20_str.free")
def sweep(c, mod, k, thorough, t1, t2, hows):
    for how in hows:
        for n in (1, 2, 3, 4) + ((5,) if thorough else ()):
            if n > 3 and k in ("i128", "u128", "long", "ulong", "ptr") or n > 2 and k.startswith(("v", "pair_fi", "float", "double")): continue
            c.task(mod, "e_pat", [how, n, 0, n, 0], "%s.free.h%d.n%d" % (mod, how, n))
        for pat in range(13):
            for j, n in enumerate((t1 - 1, t1, t1 + 2, t2) if not thorough else (t1 - 1, t1, t1 + 2, t1 * 2, t2 - 1, t2, t2 + 40)):
                if not thorough and (pat + how + j) % 4: continue
                for m, mask in ((1, 0), (2, 3), (2, 5)) if n < t2 else ((2, 3),):
                    if m == 1 and k in ("wchar", "c32", "c16") and not thorough: continue
                    if mask == 0 and t1 >= 1000 and (k in ("long", "ulong", "double", "float") or not thorough): m, mask = 1, 4
                    if not thorough and (mask == 5 and (pat + how + k.__len__()) % 3 or mask == 0 and ((pat + how) % 2 or k.startswith(("v", "pair_fi"))) or n > 2000 and pat in (1, 4, 9) and k in ("short", "ushort", "c16") or k in ("c16", "ulong", "schar", "uint") and (pat + how + j) % 2): continue
                    c.task(mod, "e_pat", [how, n, pat, m, mask], "%s.h%d.n%d.p%d.m%d" % (mod, how, n, pat, mask), steps=60000000)
