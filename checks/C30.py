import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "Wide": "FALSE"}


def mixture(r):
    a = r.choice([0, 10, 300, 500, 780, 1000])
    b = r.randint(0, 1000 - a)
    return [a, b, 1000 - a - b]


def config(r):
    thermal = r.random() < 0.3
    balloon = int(r.random() < 0.25)
    area, radius = (r.choice([0, 5, 50]), r.choice([10, 50, 0])) if thermal else r.choice([(0, 10), (20, 0), (0, 0)])
    p = r.choice([100, 500, 1000, 1000, 2500])
    infl = r.choice([1, 3, 10]) if balloon else 1
    return ([balloon, r.choice([10, 100, 500, 1000]), r.choice([250, 294, 300, 350]), p] + mixture(r)
            + [r.choice([50, 500, 1000]), r.choice([250, 300, 340]), r.choice([100, 900, 1000, 2000])] + mixture(r)
            + [r.choice([0, 0, 50, 100]), r.choice([0, 10, 50, 100]), r.choice([1000, 100000, 10000000]), area, radius, r.choice([200, 300, 400]), infl, r.choice([50, 200, 1000])])


def trace(r):
    c = config(r)
    t = [("Init", c)]
    flowing = r.random() < 0.35
    if flowing: c[1], c[7] = max(c[1], 100), max(c[7], 500)
    malf = c[0] and r.random() < 0.5
    busy = set()
    off = lambda: [t.append(("EditRate", [g, 0, 0, 0])) for g in range(3) if g in busy] and busy.clear()
    T = lambda: r.choice([280, 300, 320, 320, 333, 0]) if r.random() < 0.8 else r.randint(220, 380)
    P = lambda: r.choice([5, 100, 800, 1000, 1200] + [0] * (1 - c[0])) if r.random() < 0.8 else r.randint(50, 2900)
    dts = r.choice([[100], [1000], [500], [100, 200, 700, 1000]])
    for _ in range(r.choice([10, 30, 60])):
        if flowing and r.random() < 0.2: t.append(("Pipe", [r.choice([0, 1, 2, 5, 10])]))
        k = r.random()
        if malf:
            if k < 0.15: t.append(("Stuck", [r.randint(0, 1)]))
            elif k < 0.25: t.append(("Scale", [r.randint(0, 1), r.choice([500, 900, 2000])]))
            elif k < 0.30: t.append(("Shell", [r.randint(200, 400)]))
        elif k < 0.08:   off(); t.append(("EditT", [int(r.random() < 0.9), T()]))
        elif k < 0.18: off(); t.append(("EditTP", [int(r.random() < 0.85), T(), P()]))
        elif k < 0.27: off(); t.append(("EditTPP", [int(r.random() < 0.85), T(), P(), r.choice([0, P()]), r.choice([0, 0, r.randint(0, 200)])]))
        elif k < 0.45 and not c[0]:
            t += [("EditT", [0, 0]), ("EditTP", [0, 0, 0]), ("EditTPP", [0, 0, 0, 0, 0])]
            t.append(("Step", [r.choice(dts)]))
            for g in r.sample(range(3), r.choice([1, 1, 2, 3])):
                t.append(("EditRate", [g, int(r.random() < 0.9), r.choice([0, 100, 500, 780, 800, r.randint(0, 1500)]), r.choice([0, 1, 5, 10, 33, 50, -10])])); busy.add(g)
            if r.random() < 0.6: t += [("Step", [r.choice(dts)])] * r.randint(1, 8)
        elif k < 0.52:
            if c[0]: off()
            t.append(("EditV", [int(r.random() < 0.9), r.choice([100, 300, 700] if flowing else [10, 50, 100, 300, 1000])]))
        elif k < 0.55: t.append(("Shell", [r.randint(200, 400)]))
        elif k < 0.57: t.append(("Restart", [])); busy.clear()
        t.append(("Step", [r.choice(dts)]))
    return t


def run(c):
    exe = B.build("tank")
    cfgs = [[0, 500, 300, 1000, 500, 500, 0, 500, 300, 1000, 780, 210, 10, 0, 50, 100000, 0, 0, 300, 1, 1]]
    k = {"CfgSet": "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, g)) for g in cfgs), "MaxSteps": "4" if THOROUGH else "3", "Wide": "TRUE" if THOROUGH else "FALSE"}
    edges = c.model_check("Tank", k, emit=True, workers=8, name="tank")
    paths, n = c.tours(edges, 120, None if THOROUGH else 1500)
    c.conform("Tank", exe, paths, k, what="every edge of the state graph of the edits")
    r = random.Random(SEED)
    c.conform("Tank", exe, [trace(r) for _ in range(8000 if THOROUGH else 800)], CONSTS, what="random histories")
