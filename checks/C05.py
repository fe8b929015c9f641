import random
from vf import *
import netgen


def run(c):
    exe = B.build("network")
    r = random.Random(SEED)
    N = 2
    acts = ['<<"SetPort", <<%d, %d, %d>>>>' % (l, p, n) for l in (1, 2) for p in (0, 1) for n in range(N + 1)]
    acts += ['<<"SetPort", <<1, %d, %d>>>>' % (p, n) for p, n in ((-1, 0), (2, 1), (0, -1), (1, N + 1))]
    acts += ['<<"UserPort", <<1, %d, %d, %d>>>>' % x for x in ((1, 0, 0), (1, 1, 2), (1, 0, 1), (2, 1, 0), (2, 0, 0), (3, 0, 1),
                                                               (3, 1, 1), (3, -1, 1), (1, 2, 0), (1, 1, 3), (-1, 0, 0), (0, 1, 1))]
    acts += ['<<"Lock", <<%d, %d>>>>' % (l, x) for l in (1, 2) for x in (0, 1)]
    acts += ['<<"Restart", <<>>>>']
    consts = {"CfgSet": "{ <<%d, 2, 1, 0, 1, 4, 1, 2>> }" % N, "MaxCmds": 99, "Acts": "{" + ", ".join(acts) + "}"}
    e = c.model_check("Network", consts, name="ports")
    paths, n = c.tours(e, 80, None if THOROUGH else 30000)
    c.conform("Network", exe, paths, consts, what="ports")
    c.conform("Network", exe, [netgen.history(r, r.choice([5, 20, 50]), moves=0.25, links=(2, 5))
                               for _ in range(2000 if THOROUGH else 120)],
              consts, what="random")
