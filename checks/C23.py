import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}


def trace(r):
    kind = r.randint(0, 6)
    hi = r.choice([200, 800, 2400])
    P = lambda: r.choice([r.randint(8, hi), r.randint(8, hi), hi // 2])
    p = [P() for _ in range(4)]
    if kind == 6: p[0] = max(p[0], hi // 8)
    g0, g1 = r.choice([1000, 20000, 50000]), r.choice([500, 30000])
    pos = r.choice([0, 0, 1000, 300, r.randint(0, 1000)])
    rate = r.choice([0, 10, 40, 100, 400, 800, 1000])
    a = b = d = pp = sc = k0 = k1 = bias = band = 0
    path_b = r.randint(0, 1)
    w = r.choice([8, 40, 200])
    if kind == 1: a = r.choice([0, r.randint(-w, w)]); b = a + r.randint(1, w)
    elif kind == 2: band = r.choice([0, 20, 50, 75])
    elif kind == 3: d = r.choice([0, 1, r.randint(0, w)]); a, b = d + r.randint(1, w), d + r.randint(1, w)
    elif kind in (4, 5):
        x = sorted(r.sample(range(1, min(hi, 700)), 3))
        a, b, d = x if kind == 4 else x[::-1]
        pp, sc = r.choice([5, 30, 60, 90]), r.choice([4, 4, 6, 8, 20])
        k0, k1, bias = r.choice([0, 0, r.randint(-20, 20)]), r.choice([0, 0, 1, -1]), r.choice([0, 0, r.randint(-20, 20)])
    elif kind == 6: a, b = r.choice([5, 20, 100]), P()
    t = [("Init", [kind] + p + [g0, g1, pos, rate, a, b, d, pp, sc, k0, k1, bias, path_b, band])]
    f = lambda: r.choice([0, 1])
    mal = r.choice([0, 0.1, 0.3])
    walk = r.random() < 0.5
    ops = {0: "pblt", 1: "pblsft", 2: "pb", 3: "pbsf", 4: "pblsftiq", 5: "pblsftiq", 6: "biq"}[kind]
    for _ in range(r.choice([10, 40, 120])):
        while r.random() < mal:
            o = r.choice(ops + "r")
            if o == "p": t.append(("Position", [r.choice([0, 1000, r.randint(0, 1000)])]))
            elif o == "b": t.append(("Block", [r.choice([1, 2]) if kind in (2, 3) else 0, f(), r.choice([0, 25, 50, 100])]))
            elif o == "l": t.append(("Leak", [f(), r.choice([0, 10, 500, 5000])]))
            elif o == "s": t.append(("Stuck", [f()]))
            elif o == "f": t.append(("FailTo", [f(), r.choice([0, 1000, r.randint(0, 1000)])]))
            elif o == "t" and r.random() < 0.4: t.append(("Tune", [r.choice([0, 100, 3000])]))
            elif o == "i": t.append(("Bias", [f(), r.randint(-60, 60)]))
            elif o == "q": t.append(("SetPoint", [r.randint(0, hi) if kind == 6 else r.randint(-30, 30)]))
            elif o == "r": t.append(("Restart", []))
        if walk and r.random() < 0.9: p = [max(8, min(hi, x + r.choice([0, 0, r.randint(-w, w)]))) for x in p]
        elif r.random() < 0.8: p = [P() for _ in range(4)]
        if r.random() < 0.1: p = [p[1], p[1], p[2], p[3]]
        if kind == 6: p[0] = max(p[0], hi // 8)
        t.append(("Step", list(p)))
    return t


def run(c):
    rest = "30,4,0,0,0,0,0"
    sets = [("valve", "{<<0,800,400,8,8,20000,1000,500,0,0,0,0,%s>>}" % rest),
            ("check", "{<<1,800,400,8,8,20000,1000,0,r,10,50,0,%s>> : r \\in {300, 1000}}" % rest),
            ("way3", "{<<2,800,400,400,8,20000,9000,500,0,0,0,0,30,4,0,0,0,b,n>> : b \\in 0..1, n \\in {0, 50}}"),
            ("check3", "{<<3,800,400,400,8,20000,9000,500,300,80,40,8,30,4,0,0,0,b,0>> : b \\in 0..1}"),
            ("relief", "{<<4,800,400,8,8,20000,1000,0,r,200,280,400,30,q,0,0,0,0,0>> : r \\in {300, 1000}, q \\in {4, 8}}"),
            ("regulator", "{<<5,800,400,8,8,20000,1000,0,r,400,320,200,30,q,0,0,0,0,0>> : r \\in {300, 1000}, q \\in {4, 8}}"),
            ("prv", "{<<6,800,400,80,8,0,0,0,0,20,480,0,30,4,0,0,0,0,0>>}")]
    exe = B.build("valves")
    for name, cfg in sets:
        k = {"CfgSet": cfg, "MaxSteps": "4" if THOROUGH else "3"}
        edges = c.model_check("Valves", k, emit=True, workers=8, name=name)
        paths, n = c.tours(edges, 200, None if THOROUGH else 1500)
        c.conform("Valves", exe, paths, k, what="every edge of the state graph: " + name)
    r = random.Random(SEED)
    c.conform("Valves", exe, [trace(r) for _ in range(15000 if THOROUGH else 1500)], CONSTS, what="random histories")
