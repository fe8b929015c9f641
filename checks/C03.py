import random
from vf import *
import netgen


def run(c):
    exe = B.build("network")
    r = random.Random(SEED)
    acts = ['<<"Conduct", <<%d, %d>>>>' % (l, g) for l in range(1, 6) for g in (0, 100)]
    acts += ['<<"Island", <<%d>>>>' % m for m in range(3)]
    consts = {"CfgSet": "{ <<4, 5, 1, 0, 1, 1, 1, 2, 1, 2, 3, 1, 3, 0, 1, 3, 4>> }", "MaxCmds": 99,
              "Acts": "{" + ", ".join(acts) + "}"}
    e = c.model_check("Network", consts, name="islands")
    paths, n = c.tours(e, 80)
    c.conform("Network", exe, paths, consts, what="islands")
    # every graph on four and five nodes; in the thorough tier, six
    c.conform("Network", exe, [netgen.all_graphs(n) for n in ((4, 5, 6) if THOROUGH else (4, 5))], consts, what="graphs")
    c.conform("Network", exe, [netgen.history(r, r.choice([5, 20, 50]), nodes=(2, 7), links=(2, 9), sparse=True,
                                              modes=(0, 1, 1, 2, 2), overrides=False, moves=0.2)
                               for _ in range(2000 if THOROUGH else 250)],
              consts, what="random")
