from probe_table import *
def plan(c):
    thorough = c.tier == "thorough"; mods(c); top = 7 if thorough else 6
    c.bounds = ["maximum: all keys free for n <= %d, attained for every n in that range; block-symbolic keys up to n = %d" % (top, 200 if thorough else 64),
                "0 on sorted input: all sorted sequences for n <= %d; sorted sequences with free ties at 3-6 places and several tie patterns up to n = %d" % (top, 600 if thorough else 200),
                "independence of container, iterator category and relabelling: n <= %d free, block-symbolic up to 48" % (top - 1),
                "Mannila's axioms 3-5 for dis, inv, max, rem, runs and sus on distinct elements, n <= %d" % (top - 1)]
    expect = {}
    for p in PROBES:
        for n in range(0, top + 1):
            name = "%s.max.n%d" % (p, n); c.task(p, "e_max", [0, n, 0, 0, 0, 0], name, steps=8000000); expect[name] = (p, n)
        for sh, pat in ((0, 2), (1, 10), (2, 2), (6, 5)) if not thorough else SHAPES:
            for n in (12, 33, 64) + ((128, 200) if thorough else ()): c.task(p, "e_max", [0, n, 1, 3, sh, pat], "%s.max.n%d.s%d.p%d" % (p, n, sh, pat), steps=40000000)
        for kind in (0, 2, 4, 6):
            for n in (0, 1, 2, 5, top): c.task(p, "e_zero", [kind, n, 4, 0, 0, 0], "%s.zero.k%d.n%d" % (p, kind, n), steps=8000000)
            for pat in range(5):
                for n in ((13, 29, 60, 200) if not thorough else (13, 24, 25, 29, 41, 60, 129, 200, 600)): c.task(p, "e_zero", [kind, n, 3, 3 if not thorough else 5, 1, pat], "%s.zero.k%d.n%d.t%d" % (p, kind, n, pat), steps=40000000)
        for n in range(0, top): c.task(p, "e_same", [n, 0, 0, 0, 0], "%s.same.n%d" % (p, n), steps=20000000)
        for sh, pat in ((0, 3), (3, 7), (6, 12)) if not thorough else SHAPES:
            for n in (20, 48): c.task(p, "e_same", [n, 1, 3, sh, pat], "%s.same.n%d.s%d.p%d" % (p, n, sh, pat), steps=40000000)
        if p in ("dis", "inv", "max", "rem", "runs", "sus", "par"):
            for n in range(1, top): c.task(p, "e_axioms", [n, 0, 0, 0, 0], "%s.axioms.n%d" % (p, n), steps=20000000)
            for sh, pat in ((0, 3), (2, 3)): c.task(p, "e_axioms", [24, 1, 3, sh, pat], "%s.axioms.n24.s%d.p%d" % (p, sh, pat), steps=40000000)
    def post(res, report):
        for t in res["tasks"]:
            if t["name"] in expect and t["complete"] and not t["error"] and t["counts"][1] and not t["counts"][0]:
                p, n = expect[t["name"]]; report.violation(p, "e_att", [n], t["name"], "no sequence of %d elements reaches the maximum published by %s" % (n, p))
    c.post = post
