import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}
BIG = 100000000


def compound(r, present):
    cap = r.choice([BIG, BIG, 1000000, 50000])
    dp = r.choice([0, 0, r.randint(0, 3000)])
    return [1 if present else 0, cap, r.choice([500, 1000, r.randint(-1000, 1000), r.randint(0, 1000)]), r.choice([0, 0, -100, 50]), dp,
            r.choice([0, 50000, 1000000]), r.randint(0, 1), 0, r.choice([1, 1, 2, 3]), r.choice([0, cap // 2, cap, r.randint(0, cap)])]


def gas(r):
    return [r.choice([0, 10, 30, 50, r.randint(0, 300)]), r.choice([0, 5, r.randint(0, 300)]), r.choice([0, 10, r.randint(0, 100)]), r.choice([100, 70, r.randint(20, 300)])]


def trace(r):
    kind = r.randint(0, 4)
    c = [kind] + gas(r)
    top = r.choice([10000, 100000, 3000000])
    if kind == 0:
        cap = r.choice([BIG, 1000000, 50000, 5000])
        tcap = r.choice([0, 1000000, 5000])
        c += [r.randint(1, 2), r.randint(0, 1000), r.choice([BIG, top // 20, 100]), cap, r.choice([0, top // 20, top]), r.randint(0, 1), r.choice([0, cap // 2, r.randint(0, cap)]),
              r.choice([0, 500, 1000, r.randint(0, 1000)]), tcap, r.choice([0, tcap // 2])]
    elif kind == 1:
        k = r.choice([(1, 0), (0, 1), (1, 1), (1, 1)])
        a, b = compound(r, k[0]), compound(r, k[1])
        if k == (1, 1):
            if r.random() < 0.4: a[7] = 1
            if r.random() < 0.4: b[7] = 1
        c += a + b + [0]
    elif kind == 2:
        cap = r.choice([1000000, 50000, 20000000])
        c += [r.randint(1, 2), cap, r.choice([1000, 3000]), r.choice([20, 100]), r.choice([max(1000, top // 20), top]), r.choice([0, 1000, 3000]), r.choice([0, 0, top // 50]), r.choice([0, cap // 2, cap])]
    elif kind == 3: c += [r.choice([1000, 100000]), r.randint(1, 2)]
    else:
        n = r.choice([3, 4, 4])
        f = lambda: r.choice([0, 1000, r.randint(0, 1000)])
        ports = r.choice([[2, 0, 0], [0, 2, 0], [0, 0, 2], [2, 0, 2], [0, 2, 2]] if n == 3 else [[2, 3, 0], [3, 2, 0], [2, 3, 3], [3, 2, 3], [2, 0, 3], [0, 3, 2], [0, 0, 3], [3, 0, 0]])
        c += [n]
        for p in ports: c += [p, f()]
        c += [r.randint(0, 1)]
    t = [("Init", c)]
    rate = r.choice([0, 0.2, 0.5])
    flow = lambda: r.choice([0, top, r.randint(-top, top), r.randint(0, top), top // 10])
    q = flow()
    for _ in range(r.choice([10, 40, 100])):
        while r.random() < rate:
            o = r.choice("ggm" + {0: "cc", 1: "", 2: "st", 3: "", 4: "f"}[kind] + "r")
            if o == "g": t.append(("Gas", [r.choice([0, 0, 1, 2] if kind == 3 else [0, 0, 1])] + gas(r)))
            elif o == "m" and kind in (0, 1, 3): t.append(("Malf", [r.randint(0, 1), r.choice([0, 1000, r.randint(-1000 if kind == 0 else 0, 1000)]), r.randint(0, 1) if kind == 1 else 0]))
            elif o == "c": t.append(("Cycle", [r.randint(0, 1)]))
            elif o == "s": t.append(("Speed", [r.choice([0, 500, 2000, 4000])]))
            elif o == "t": t.append(("Transfer", [r.choice([0, -100, top // 50, top])]))
            elif o == "f": t.append(("Fraction", [r.randint(0, 2), r.choice([0, 1000, r.randint(0, 1000)])]))
            elif o == "r": t.append(("Restart", []))
        if r.random() < 0.4: q = flow()
        t.append(("Step", [q]))
    return t


def run(c):
    g = "20,10,30,100"
    sets = [("adsorber", "{<<0,%s,k,700,m,6000,9000,d,3000,500,2000,0>> : k \\in 1..2, m \\in {1000, 100000000}, d \\in 0..1}" % g),
            ("multi", "{<<1,%s,1,20000,800,0,500,30000,t,0,2,10000,1,20000,600,0,300,30000,0,d,1,5000,0>> : t \\in 0..1, d \\in 0..1}" % g),
            ("separator", "{<<2,50,10,30,100,e,3000,1000,50,4000,1000,0,1000>> : e \\in 1..2}"),
            ("membrane", "{<<3,%s,2000,k>> : k \\in 1..2}" % g),
            ("splitter", "{<<4,%s,4,h,700,5-h,500,t,300,x>> : h \\in 2..3, t \\in {0, 2, 3}, x \\in 0..1} \\cup {<<4,%s,3,0,0,0,0,2,300,0>>}" % (g, g))]
    exe = B.build("process")
    for name, cfg in sets:
        k = {"CfgSet": cfg, "MaxSteps": "4" if THOROUGH else "2" if name in ("splitter", "multi") else "3"}
        edges = c.model_check("Process", k, emit=True, workers=8, name=name)
        paths, n = c.tours(edges, 200, None if THOROUGH else 800)
        c.conform("Process", exe, paths, k, what="every edge of the state graph: " + name)
    # the trace compounds of the multi-adsorber, which are a known finding and not in the random histories
    c.known_finding("multi-adsorber-trace-compounds", "Process", exe,
                    [("Init", [1, 20, 10, 30, 100] + [0, 1000, 0, 0, 0, 0, 0, 0, 1, 0] + [1, BIG, 500, 0, 0, 0, 0, 0, 1, 0] + [1]), ("Step", [1000000])], CONSTS, 2)
    r = random.Random(SEED)
    c.conform("Process", exe, [trace(r) for _ in range(15000 if THOROUGH else 1500)], CONSTS, what="random histories")
