import itertools
import random
from vf import *

DIRS = [[0, 0], [1, 2], [2, 1], [3, 3], [1, 0], [2, 0], [0, 1], [0, 2]]


def small():
    """Every network of one or two links between two nodes and the ground, with every flow direction and overflow."""
    maps = list(itertools.product(range(3), repeat=2))
    for nl in (1, 2):
        for m in itertools.product(maps, repeat=nl):
            t = [("Init", [1, 3, nl] + [x for k in m for x in [2, k[0], k[1]]])]
            for d in itertools.product(DIRS, repeat=nl):
                for o in itertools.product((0, 1), repeat=2):
                    t.append(("Step", [x for k in d for x in k] + list(o)))
            yield t


def large(r, n):
    nn, nl = r.randint(2, 7), r.randint(1, 12)
    ports = [r.choice([1, 2, 2, 2, 2, 3, 4]) for _ in range(nl)]
    chain = r.random() < 0.4                        # mostly one way: long orders without loops
    maps = [[r.randrange(nn) for _ in range(p)] for p in ports]
    if chain:
        for l in range(nl): maps[l] = sorted(maps[l]) if r.random() < 0.5 else sorted(maps[l], reverse=True)
    t = [("Init", [r.choice([0, 1, 1, 1]), nn, nl] + [x for p, m in zip(ports, maps) for x in [p] + m])]
    for _ in range(n):
        dirs = []
        for p, m in zip(ports, maps):
            if chain: dirs += [1 if k == min(m) else 2 for k in m] if len(set(m)) > 1 else [0] * p
            elif p == 2 and r.random() < 0.8: dirs += r.choice(DIRS[:4] if r.random() < 0.3 else DIRS[:3])
            else: dirs += [r.randint(0, 3) for _ in range(p)]
        over = r.choice([0.2, 0.6, 0.9, 1.0])
        t.append(("Step", dirs + [int(r.random() < over) for _ in range(nn - 1)]))
    return t


def run(c):
    consts = {"Networks": "{<<1,3,2,2,0,1,2,1,2>>, <<0,3,2,2,0,1,2,1,2>>, <<1,3,2,2,0,1,2,1,0>>, <<1,2,2,1,0,3,0,1,1>>, <<1,3,3,2,1,2,2,0,1,2,2,0>>" + (", <<1,4,3,2,1,2,2,0,1,2,2,0>>" if THOROUGH else "") + "}",
              "MaxEvents": 1}
    c.model_check("FlowOrder", consts, emit=False, workers=8, heap="6g")
    exe = B.build("floworder")
    c.conform("FlowOrder", exe, list(small()), consts, what="all small networks")
    r = random.Random(SEED)
    c.conform("FlowOrder", exe, [large(r, r.choice([5, 20, 40])) for _ in range(20000 if THOROUGH else 1500)], consts, what="random networks")
