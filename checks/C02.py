import random
from vf import *
import solvergen


def run(c):
    exe = B.build("solver")
    consts = {"Gs": "{1, 2}", "Ws": "{8}", "Ovs": "{0, 1}", "Votes": "{0, 1}", "Majors": 2,
              "CfgSet": "{ <<1, 2, 3, 2, 1>>, <<1, 2, 2, 1, 0>> }", "Modes": "{0, 1, 2}",
              "Flags": "{ <<0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<0, 0, 2, 0, 0>> }"}
    e = c.model_check("Solver", consts, name="modes")
    paths, n = c.tours(e, 60, None if THOROUGH else 12000)
    c.conform("Solver", exe, paths, consts, what="modes")
    r = random.Random(SEED + 2)
    c.conform("Solver", exe, [solvergen.steps(r, r.choice([5, 20, 40]), modes=True, calm=r.random() < 0.3)
                              for _ in range(1500 if THOROUGH else 160)],
              consts, what="random")
