import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}


def trace(r):
    gas = r.randint(0, 1)
    V = r.choice([100000, 50000, 20000])
    pmax = r.choice([2000000, 2000000, 450000])
    head = r.choice([0, 0, 5000])
    if gas: spring = r.choice([(0, 0, 0), (0, 0, 0), (-10000, 20000, 0), (0, 5000, 10000)])
    else: spring = r.choice([(-100000, 400000, 0), (50000, 200000, 0), (100000, 50000, 200000), (150000, 3000, 0)])
    pos = r.choice([0, 10000, 5000, r.randint(0, 10000), 100, 9800])
    thr = r.choice([0, 0, 2000])
    mn = r.choice([5, 10])
    p0 = r.choice([300000, 150000])
    c = [gas, V, mn, mn + r.choice([2, 5, 10]), min(V // 5, r.choice([100000, 10000, 3000])), r.choice([1000, 100, 10000]), r.choice([800, 4000, 80]), r.choice([0, 250, 1000]), *spring,
         thr, r.choice([80, 800, 8000]), pos, pmax, p0, r.choice([100000, 300000, 10000]), r.choice([1, 100]), r.choice([80000, 8000, 400000]), r.choice([p0, 250000]),
         r.randint(0, 1), r.choice([0, 0, 0, 1]), head, r.choice([0, 0, 0, 1000, -1000, 100000]), r.choice([0, 100, 500])]
    t = [("Init", c)]
    rate = r.choice([0, 0.1, 0.4])
    pl, pg = p0, c[19]
    press = lambda: max(1000, r.choice([p0, 400000, 100000, p0 + r.randint(-60000, 60000), p0 + r.randint(-3000, 3000)]))
    spd = lambda m: r.choice([m, m * 2, m // 8 * 4, 80, 0]) // 8 * 8
    for _ in range(r.choice([10, 40, 100])):
        while r.random() < rate:
            o = r.choice("fsSSeetThr" + ("ppPR" if gas else ""))
            if o == "f": t.append(("Fluids", [r.choice([30000, 29000, 32000]), r.choice([c[24], 0, 900, r.randint(0, 1000)]), r.choice([30000, 29000, 33000])]))
            elif o == "s": t.append(("Stick", [r.choice([0, 0, 1])]))
            elif o == "S": t.append(("StickTo", [r.choice([0, 0, 1]), r.choice([0, 10000, r.randint(0, 10000)]), spd(c[6])]))
            elif o == "e": t.append(("Edit", [r.choice([1, 1, 0]), r.choice([0, 10000, r.randint(0, 10000), 12000]), spd(c[6])]))
            elif o == "t": t.append(("EditT", [r.choice([30000, 32000, 20000, 40000])]))
            elif o == "h": t.append(("Hold", [r.choice([0, 0, 1])]))
            elif o == "T": t.append(("Stick", [0])); t.append(("StickTo", [0, 0, 0]))
            elif o == "r": t.append(("Restart", []))
            elif o == "p": t.append(("EditP", [r.choice([1, 1, 0]), r.choice([p0, 350000, 250000, 420000]), spd(c[18])]))
            elif o == "P": t.append(("EditP", [1, 320000, spd(c[18])])); t.append(("Edit", [1, r.randint(0, 10000), spd(c[6])]))
            elif o == "R": t.append(("Rupture", [r.choice([0, 0, 1]), r.choice([0, 5000, r.randint(0, 10000)]), spd(c[6]), r.choice([150000, 200000]), spd(c[18])]))
        if r.random() < 0.3: pl = press()
        if r.random() < 0.3: pg = press()
        t.append(("Step", [pl, pg]))
    return t


def run(c):
    tail = "1,0,%s,0,100"
    spring = "{<<0,100000,5,10,100000,1000,4000,125,-100000,400000,0,t,800,q,2000000,100000,100000,100,80000,100000,r,0,h,0,0>> : t \\in {0, 2000}, q \\in {0, 300, 5000, 9800, 10000}, r \\in 0..1, h \\in {0, 5000}}"
    gas = "{<<1,100000,5,10,100000,1000,4000,125,0,0,0,t,800,q,2000000,300000,100000,100,80000,300000,r,0,h,0,100>> : t \\in {0, 2000}, q \\in {300, 5000, 10000}, r \\in 0..1, h \\in {0, 5000}}"
    exe = B.build("accum")
    for name, cfg in (("spring", spring), ("gas", gas)):
        k = {"CfgSet": cfg, "MaxSteps": "3" if THOROUGH else "2"}
        edges = c.model_check("Accum", k, emit=True, workers=8, name=name)
        paths, n = c.tours(edges, 200, None if THOROUGH else 800)
        c.conform("Accum", exe, paths, k, what="every edge of the state graph: " + name)
    c.known_finding("accumulator-mixes-node-inflow", "Accum", exe,
                    [("Init", [1, 100000, 5, 10, 10000, 1000, 800, 250, 0, 0, 0, 0, 800, 5000, 2000000, 300000, 100000, 1, 80000, 300000, 0, 0, 0, 0, 0]),
                     ("Dry", [1]), ("Fluids", [30000, 500, 30000]), ("Step", [300000, 350000])], CONSTS, 4)
    r = random.Random(SEED)
    c.conform("Accum", exe, [trace(r) for _ in range(10000 if THOROUGH else 800)], CONSTS, what="random histories")
