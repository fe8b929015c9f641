import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}


def trace(r):
    n = r.randint(1, 4)
    par = r.randint(0, 1)
    bp = r.choice([10, 20, 50, 80])
    v0 = r.choice([500, 2500, 3000])
    v1 = v0 + r.choice([100, 500, 1000])
    v2 = v1 + r.choice([50, 400])
    ohm, ic = r.choice([0, 20, 50, 200, 1000]), r.choice([1, 5, 20, 100])
    cap = n * r.choice([1000, 2500, 8000])
    t = [("Init", [n, par, ohm, ic, cap, v0, bp, v1, v2, r.choice([0, 0, 5, 50, 100, 37]), r.choice([1, 2])])]
    b = lambda: r.choice([0, 1])
    k = lambda: r.randint(1, n)
    full = v1 if par else n * v1
    res = ic + (ohm / n if par else ohm * n)
    dur = lambda: r.choice([360, 720, 1200, 3600])
    mal = r.choice([0.1, 0.3, 0.6])
    p0 = r.choice([0, 0, 0, 1000])
    mode = r.choice([-1, 1])
    for _ in range(r.choice([20, 60, 150])):
        while r.random() < mal:
            x = r.random()
            if x < 0.2: t.append(("Open", [k(), b()]))
            elif x < 0.4: t.append(("Short", [k(), b()]))
            elif x < 0.5: t.append(("Cap", [k(), b(), r.choice([0, 500, 1000, 3000])]))
            elif x < 0.65: t.append(("Hot", [k(), b(), dur()]))
            elif x < 0.85: t.append(("Runaway", [b(), dur(), r.choice([0, 10, 10, 15, 20, 25, 30, 50])]))
            elif x < 0.93: t.append(("Block", [b(), r.choice([0, 25, 50, 90, 100])]))
            else: t.append(("Restart", []))
        if r.random() < 0.1: mode = -mode
        amps = r.choice([0, 0.2, 1, 1, 3]) * cap * mode            # mA
        v = int(p0 + full - amps * res / 1000)
        if r.random() < 0.1: v = r.choice([0, full, v0])
        t.append(("Step", [p0, max(-20000, min(40000, v))]))
    return t


def run(c):
    sets = [("series", "{<<2,0,50,20,2000,3000,20,3600,4100,h,1>> : h \\in {0, 5, 100}}"), ("parallel", "{<<2,1,50,20,2000,3000,20,3600,4100,h,1>> : h \\in {0, 5, 50}}")]
    exe = B.build("battery")
    for name, cfg in sets:
        k = {"CfgSet": cfg, "MaxSteps": "4" if THOROUGH else "3"}
        edges = c.model_check("Battery", k, emit=True, workers=8, name=name)
        paths, n = c.tours(edges, 200, None if THOROUGH else 12000)
        c.conform("Battery", exe, paths, k, what="every edge of the state graph: " + name)
    r = random.Random(SEED)
    c.conform("Battery", exe, [trace(r) for _ in range(12000 if THOROUGH else 1500)], CONSTS, what="random histories")
