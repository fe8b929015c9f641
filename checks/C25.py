import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}


def config(r, kind):
    liq = kind in (1, 3)
    motor = r.choice([0, 5000, 10000, 20000, 30000, 40000, r.randint(0, 45000)])
    c = [kind, r.choice([100, 100, 200, 50, r.randint(100, 400)]), r.randint(0, 1), r.choice([10000, 20000, r.randint(5000, 40000)]), r.choice([10, 100, 1000, 5000]),
         10000 if liq else r.choice([11231, 12000, 8000]), r.choice([3000, 3500, 4000]), r.choice([10000, 20000, 40000]), r.choice([20000, 30000]), r.choice([0, 10000, 15000]),
         r.choice([50, 60, 80]), r.choice([20, 50, 100]), r.randint(0, 1), r.choice([0, 500, 2000, 5000]), 0, motor,
         r.choice([0, 0, 1]) if kind >= 2 else 0, r.choice([5, 50, 500]) if kind < 4 else r.choice([500, 5000]), r.choice([0, 50, 500]), r.choice([0, 100, 1000])] + [0] * 9
    if c[1] == 50: c[15] = min(c[15], 22000)
    if liq: c[14] = r.choice([0, 0, 500])
    if kind == 4:
        c[5:15] = [r.choice([300, 350]), r.choice([100, 150]), r.choice([500, 1000]), r.choice([1000, 2000]), r.choice([0, 10, 50]), r.choice([0, 20]), c[11], r.choice([0, 10]), r.choice([0, 30]), r.choice([40, 60])]
        c[20:29] = [r.choice([50, 70]), r.choice([-10, 0, 5]), r.choice([-5, 0, 10]), r.choice([100, 110]), r.choice([100, 120]), r.choice([200, 400]), r.choice([250, 400]), r.choice([500, 1000]), r.choice([3000, 4000])]
    return c


def trace(r, kind=None):
    kind = r.randrange(5) if kind is None else kind
    c = config(r, kind)
    liq, shaft = kind in (1, 3), c[16] == 1
    t = [("Init", c)]
    top = 45000 if c[1] >= 100 else 22000
    for k in range(r.choice([5, 15, 30])):
        x = r.random()
        if r.random() < 0.4:
            T = lambda: r.choice([3000, 3000, 2900, r.randint(2800, 3400)])
            if liq:
                p = lambda: r.choice([10000, 12000, 20, r.randint(20, 30000)])
                t.append(("Fluids", [p(), T(), 0, p(), T(), 0]))
            elif kind == 4:
                p = r.randint(1000000, 2000000)
                t.append(("Fluids", [p, T(), r.choice([0, 300, 1000]), max(300000, int(p * r.choice([1.0, 1.2, 0.95, 0.8, 0.5, r.uniform(0.4, 1.1)]))), T(), r.choice([0, 500])]))
            else:
                p = r.choice([1000000, r.randint(500000, 1500000)])
                t.append(("Fluids", [p, T(), r.choice([0, 300, 1000]), p + r.choice([0, 1000, 5000, 15000, -5000, -20000, r.randint(-30000, 30000)]), T(), r.choice([0, 500])]))
        if not shaft and r.random() < 0.3:
            t.append(("Motor", [r.choice([0, 0, 5000, 10000, top, r.randint(-20000, top) if kind != 1 or c[14] == 0 else r.randint(0, top)])]))
        if kind < 4 and r.random() < 0.1: t.append(("Check", [r.randint(0, 1)]))
        if r.random() < 0.1: t.append(("Block", [r.randint(0, 1), r.choice([0, 30, 100])]))
        if liq and r.random() < 0.2: t.append(("Full", [r.randint(0, 1), r.choice([500, 1000, 4000])]))
        if liq and r.random() < 0.1: t.append(("Partial", [r.randint(0, 1), r.choice([500, 1000, 4000]), r.choice([0, 0, 300]) if c[14] else 0]))
        if shaft and r.random() < 0.1: t.append(("Jam", [r.randint(0, 1), r.choice([0, 30, 100])]))
        if shaft and r.random() < 0.1: t.append(("Override", [r.randint(0, 1), r.randint(0, top)]))
        if r.random() < 0.03: t.append(("Restart", []))
        t.append(("Step", [r.choice([1, 1, 1, 2, 40])]))
    return t


def run(c):
    exe = B.build("pumps")
    z = "0, 0, 0, 0, 0, 0, 0, 0, 0"
    fan = lambda kind, dens, bep, shaft: "<<%d, 100, 0, 20000, 1000, %d, 3000, 20000, 40000, %d, 60, 50, 1, 2000, 0, 30000, %d, 50, 50, 100, %s>>" % (kind, dens, bep, shaft, z)
    k = {"CfgSet": "{%s}" % ", ".join([fan(0, 12000, 0, 0), fan(1, 10000, 0, 0), fan(2, 12000, 20000, 0), fan(2, 12000, 0, 1), fan(3, 10000, 15000, 0),
                                       "<<4, 100, 0, 0, 100, 300, 100, 1000, 2000, 10, 20, 50, 10, 20, 60, 30000, 1, 50, 50, 100, 70, -5, -5, 100, 110, 200, 400, 1000, 4000>>"]),
         "MaxSteps": "6" if THOROUGH else "4"}
    edges = c.model_check("Pumps", k, emit=True, workers=8, name="machines")
    paths, n = c.tours(edges, 120, None if THOROUGH else 1200)
    c.conform("Pumps", exe, paths, k, what="every edge of the state graph of each machine")
    r = random.Random(SEED)
    c.conform("Pumps", exe, [trace(r) for _ in range(12000 if THOROUGH else 2000)], CONSTS, what="random histories")
