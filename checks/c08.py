from probe_table import *
import json, os
EXC_STRICT = (3, 4)
def plan(c):
    thorough = c.tier == "thorough"; known = [k["order_type"] for k in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"))) if k["property"] == "C08" and "order_type" in k]
    mods(c, known); top = 7 if thorough else 6
    c.bounds = ["every probe, called in 9 ways (pointers, bidirectional and forward iterators, vectors, lists, forward lists, member-function comparison, reversed comparison with projection): all keys free for n <= %d with pointers and %d otherwise" % (top, top - 1),
                "block-symbolic keys (3-4 free level bytes) for n up to %d" % (200 if thorough else 96),
                "exc is compared with the exact least number of exchanges for all order types of up to 4 elements, elsewhere exactly for distinct elements and between bounds with ties"]
    for p in PROBES:
        for kind in range(9):
            for n in range(0, top + (kind == 0)): c.task(p, "e_def", [kind, n, 0, 0, 0, 0], "%s.def.k%d.n%d" % (p, kind, n), steps=6000000)
            for j, (sh, pat) in enumerate(SHAPES):
                if not thorough and (j + kind) % 3: continue
                for n in ((9, 17, 30, 48, 96, 150) if not thorough else (8, 9, 15, 16, 17, 25, 30, 33, 41, 48, 64, 65, 96, 128, 200)):
                    if p in ("osc",) and n > 130: continue
                    c.task(p, "e_def", [kind, n, 1, 3 if n > 60 else 4, sh, pat], "%s.def.k%d.n%d.s%d.p%d" % (p, kind, n, sh, pat), steps=40000000)
        for n in (7, 12, 24):
            c.task(p, "e_def", [2, n, 2, 2, 0, 3], "%s.def.two.n%d" % (p, n), steps=40000000)
    for n in EXC_STRICT: c.task("exc", "e_exc", [n, 0], "exc.least.n%d" % n)
    for i, o in enumerate(known): c.task("exc", "e_exc", [len(o), i + 1], "exc.least.%s" % o)
