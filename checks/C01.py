import random
from vf import *
import solvergen


def run(c):
    exe = B.build("solver")
    consts = {"Gs": "{1, 2}", "Ws": "{4, 8}" if THOROUGH else "{8}", "Ovs": "{0}", "Votes": "{0, 1, 2}", "Majors": 1,
              "CfgSet": "{ <<2, 2, 3, 2, 1, 0>>, <<2, 0, 3, 3, 1, 1>>, <<2, 2, 2, 1, 0, 0>> }", "Modes": "{0}",
              "Flags": "{ <<0, 0, 0, 0, 0>> }"}
    e = c.model_check("Solver", consts, name="protocol")
    paths, n = c.tours(e, 60)
    c.conform("Solver", exe, paths, consts, what="protocol")
    r = random.Random(SEED)
    c.conform("Solver", exe, [solvergen.steps(r, r.choice([5, 20, 40])) for _ in range(1500 if THOROUGH else 160)],
              consts, what="random")
