import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "Plugged": "{}", "Strict": "FALSE"}


def config(r):
    lists = [r.choice([1, 1, 1, 2, 2, 0]) for _ in range(4)]
    first = [{0: 0, 1: 3, 2: 2}[k] for k in lists]
    for p in range(4):
        if lists[p] and r.random() < 0.4: first[p] = r.randint(0, first[p] + (1 if r.random() < 0.05 else 0))
        if r.random() < 0.01: first[p] = -1
    return [r.randint(0, 1)] + [r.randint(0, 1) for _ in range(7)] + lists + first + [r.randint(0, 1)]


def trace(r):
    c = config(r)
    t = [("Init", c)]
    held, plugs = {}, [p for p in range(4) if c[8 + p]]
    for p in plugs:                                     # a bad first connection ends it
        no = 3 if c[8 + p] == 1 else 2
        i = c[12 + p]
        if i < 0 or i > no: return t
        if i < no:
            k = i if c[8 + p] == 1 else 2 - 2 * i
            if k in held: return t
            held[k] = p
    saved = False
    shy = r.choice([0.1, 0.3, 0.6])
    for _ in range(r.choice([10, 40, 100])):
        for p in plugs:
            no = 3 if c[8 + p] == 1 else 2
            if r.random() < shy: t.append(("Disconnect", [p, r.randint(0, no)]))
            if r.random() < shy: t.append(("Connect", [p, r.randint(0, no)]))
            if r.random() < shy / 4: t.append(("Direct", [p, r.choice([-99, -99, -1, no, no + 1] + list(range(no)))]))
            if r.random() < shy / 10: t.append(("Disable", [p, r.randint(0, 1)]))
        if r.random() < 0.1: t.append(("Block", [r.randint(0, 4), r.randint(0, 1), r.choice([0, 3, 5, 10])]))
        if c[0] and r.random() < 0.2: t.append(("Leak", [r.randint(0, 4), r.choice([0, 1, 1]), r.choice([0, 100, 500, 1000, 5000])]))
        if r.random() < 0.05: t.append(("Save", [])); saved = True
        if saved and r.random() < 0.05: t.append(("Load", []))
        t.append(("Step", []))
    return t


def run(c):
    exe = B.build("plugs")
    cfg = lambda f, seals, lists, first, order: "<<%s>>" % ", ".join(str(x) for x in [f] + seals + lists + first + [order])
    cfgs = [cfg(0, [0, 0, 0, 0, 0, 0, 0], [1, 0, 1, 0], [3, 0, 3, 0], 0), cfg(1, [1, 0, 0, 1, 1, 0, 0], [1, 1, 0, 0], [0, 3, 0, 0], 0), cfg(1, [1, 1, 1, 1, 0, 1, 0], [2, 0, 1, 0], [2, 0, 2, 0], 1),
            cfg(0, [0, 1, 1, 0, 0, 0, 1], [1, 2, 1, 0], [0, 2, 0, 0], 0)]
    k = {"CfgSet": "{%s}" % ", ".join(cfgs), "MaxSteps": "4" if THOROUGH else "3", "Plugged": "1..4", "Strict": "FALSE"}
    edges = c.model_check("Plugs", k, emit=True, workers=8, name="plugs")
    paths, n = c.tours(edges, 120, None if THOROUGH else 1500)
    c.conform("Plugs", exe, paths, k, what="every edge of the state graph of plugs and sockets")
    r = random.Random(SEED)
    c.conform("Plugs", exe, [trace(r) for _ in range(12000 if THOROUGH else 1000)], CONSTS, what="random histories")
    lost = [("Init", [0] * 8 + [1, 0, 1, 0] + [0, 0, 1, 0] + [0]), ("Disconnect", [0, 0]), ("Step", []), ("Direct", [0, 1]), ("Step", []), ("Save", []), ("Load", [])]
    c.known_finding("restart-with-refused-direct-request", "Plugs", exe, lost, dict(CONSTS, Strict="TRUE"), 7)
