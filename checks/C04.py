import random
from vf import *
import netgen


def run(c):
    exe = B.build("network")
    r = random.Random(SEED)
    # a bridge of conductors and a source, every conductance and source switched in every combination
    consts = {"CfgSet": "{ <<2, 4, 1, 0, 1, 2, 2, 0, 4, 1, 2, 3, 0, 2>> }", "MaxCmds": 99,
              "Acts": '{<<"Conduct", <<1, 0>>>>, <<"Conduct", <<1, 200>>>>, <<"Conduct", <<2, 100>>>>, '
                      '<<"Conduct", <<2, 0>>>>, <<"Source", <<2, 2>>>>, <<"Source", <<2, 0>>>>, <<"Block", <<2, 1, 50>>>>, '
                      '<<"Block", <<2, 0, 50>>>>, <<"Conduct", <<3, 100>>>>, <<"Source", <<4, 1>>>>, '
                      '<<"Request", <<0, 1>>>>, <<"Request", <<1, 2>>>>}'}
    e = c.model_check("Network", consts, name="assembly")
    paths, n = c.tours(e, 80, None if THOROUGH else 4000)
    c.conform("Network", exe, paths, consts, what="assembly")
    c.conform("Network", exe, [netgen.history(r, r.choice([5, 20, 50])) for _ in range(2000 if THOROUGH else 400)],
              consts, what="random")
