import random
from vf import *


def gases(r):
    x = r.choice([[1000, 0, 0], [0, 1000, 0], [780, 210, 10], [500, 300, 200], [0, 500, 500], [100, 100, 800]])
    r.shuffle(x)
    return x


def network(r, steps):
    n = r.randint(1, 5)
    t = [n]
    small = r.random() < 0.4
    nodes, vol = [], []
    for _ in range(n):
        v = r.choice([5, 20, 100] if small and r.random() < 0.6 else [100, 300, 1000])
        if n > 1 and r.random() < 0.25: v = 0            # no volume: what flows in flows out
        vol.append(v)
        nodes += [v, r.choice([20, 80, 100, 100, 150]), r.choice([250, 290, 300, 350])] + gases(r) + [r.choice([0, 50, 2000])]
    links, kinds, used = [], [], set()
    for _ in range(r.randint(1, 7)):
        k = r.choice([0, 0, 0, 1, 2])
        a, b = r.randrange(n), r.randrange(n + 1)
        if k == 2 and (a in used or vol[a] == 0): k = 0
        if k == 1 and (vol[a] == 0 or (b < n and vol[b] == 0)): k = 0
        if k < 2 and a == b: b = n
        if k == 1 and b == n: a, b = a, n
        if k == 0: link = [0, a, b, r.choice([1, 10, 100, 100, 1000] if small else [1, 10, 100, 300])]
        elif k == 1: link = [1, a, b, r.choice([0, 1, 5, 20, 100, -5, -20] if b < n else [0, 1, 5, 20])]
        else:
            used.add(a)
            link = [2, a, r.choice([0, 0, 1]), r.choice([0, 1, 3, 10, 50])]
        link += gases(r) + [r.choice([250, 290, 350]), r.choice([0, 50, 1000])] if k == 2 else [0] * 5
        links += link
        kinds.append((k, a, b))
    if not any(vol): return network(r, steps)
    t += [len(kinds)] + nodes + links
    s = [("Init", t)]
    for _ in range(steps):
        x = r.random()
        l = r.randrange(len(kinds))
        k, a, b = kinds[l]
        if x < 0.7: s.append(("Step", []))
        elif x < 0.85: s.append(("Demand", [l, r.choice([0, 1, 10, 100, 300]) if k == 0 else r.choice([0, 1, 4, 10, 30] + ([-4, -20] if k == 1 and b < n else []))]))
        elif x < 0.93: s.append(("Block", [l, r.randint(0, 1), r.choice([0, 250, 500, 1000])]))
        elif x < 0.97: s.append(("Heat", [r.choice([i for i in range(n) if vol[i]] or [-1]), r.choice([0, 50, 400, -100])]))
        else: s.append(("Restart", []))
    return s


def run(c):
    node = "0,0,0,0,0,0,0"
    consts = {"CfgSet": "{<<2,3,%s,%s, 0,0,1,9,0,0,0,0,0, 0,1,2,9,0,0,0,0,0, 2,0,0,5,200,300,500,300,1000, 800,200,0,40,3000, 0,500,500,0,3300, 0,0,300>>, "
                        "<<3,3,%s,%s,%s, 0,0,1,9,0,0,0,0,0, 1,1,2,9,0,0,0,0,0, 2,0,1,5,200,300,500,300,1000, 800,200,100,40,3000, 10,50,40,20,300, 0,50,50,10,3300, 0,0,300>>}"
              % ((node,) * 5),
              "FlowSet": "{<<x,y,z>> : x \\in {-150,0,30,400}, y \\in {-200,0,50,120}, z \\in {-20,0,300}}",
              "Strict": "FALSE", "MaxSteps": 3 if THOROUGH else 2}
    c.model_check("FluidNet", consts, emit=False, workers=8)
    exe = B.build("fluidnet")
    r = random.Random(SEED)
    c.conform("FluidNet", exe, [network(r, r.choice([20, 40, 100])) for _ in range(4000 if THOROUGH else 400)], consts, what="random networks")
    # what the code is known not to do
    strict = dict(consts, Strict="TRUE")
    z = [0, 0, 0, 0, 0]
    two = [100, 100, 300, 780, 210, 10, 0, 100, 120, 300, 780, 210, 10, 2000]
    c.known_finding("trace-compound-lost-in-net-outflow", "FluidNet", exe,
                    [("Init", [2, 2] + two + [0, 1, 0, 10] + z + [2, 0, 1, 30, 1000, 0, 0, 300, 0]), ("Step", [])], strict, 2)
    c.known_finding("exactly-cancelling-flows", "FluidNet", exe,
                    [("Init", [1, 2] + two[:7] + [2, 0, 0, 10, 0, 1000, 0, 300, 0, 2, 0, 1, 10, 0, 0, 1000, 300, 0]), ("Step", [])], strict, 2)
