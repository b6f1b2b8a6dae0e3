PROBES = "block dis enc exc ham inv max mono osc par rem runs sus".split()
def mods(c, known=()):
    for p in PROBES: c.module(p, "probes.cpp", ["P=%s" % p, 'HDR="cpp-sort/probes/%s.h"' % p] + (["EXC_KNOWN=%s" % "".join('"%s",' % k for k in known)] if p == "exc" and known else []))
SHAPES = [(0, 3), (1, 2), (2, 4), (3, 3), (6, 7), (7, 9), (11, 13), (5, 12), (3, 14), (4, 8), (1, 10)]
