import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "Strict": "FALSE"}


def fluid(r, liquidless=True):
    co2, he = r.choice([(0, 0), (1000, 0), (0, 1000), (300, 200), (0, 500), (1, 1), (r.randint(0, 500), r.randint(0, 500))])
    return [r.choice([30000, 29315, r.randint(20000, 40000)]), r.choice([101325, 70000, r.randint(1000, 300000)]), r.choice([0, 1000, r.randint(1, 9000)]), r.choice([0, 1000, r.randint(100, 5000)]), co2, he,
            r.choice([0, 1000, r.randint(0, 500000)]), r.choice([0, 50, r.randint(0, 500000)])]


# What the histories must know to stay where the fluids are defined.
class F:
    def __init__(self, a):
        self.fl, self.empty, self.acc, self.wild, self.n, self.zero, self.traced = a[2], False, False, False, a[3] > 0, False, 0
        self.t = a[0]
        self.mf = [1 - (a[4] + a[5]) / 1000.0, a[4] / 1000.0, a[5] / 1000.0]


M = (28.013, 44.01, 4.003)


def of_moles(v):
    w = [v[k] * M[k] for k in range(3)]
    return [k / sum(w) for k in w]


def thirds(r):
    x = [r.choice([0, r.randint(0, 1000)]) for _ in range(3)]
    while sum(x) == 0: x = [r.randint(0, 1000) for _ in range(3)]
    y = [v * 1000000 // sum(x) for v in x]
    y[r.randrange(3)] += 1000000 - sum(y)
    return y


def trace(r):
    cfg = sum([fluid(r) for _ in range(3)], [])
    f = [F(cfg[8 * i:8 * i + 8]) for i in range(3)]
    t = [("Init", cfg)]
    for _ in range(r.choice([4, 10, 25])):
        i, j = r.sample(range(3), 2)
        x, y = f[i], f[j]
        op = r.choice(["Reset", "Set", "Copy", "Add", "Add", "Add", "Temp", "Press", "Flow", "Mass", "Mole", "Mix", "MixMole", "Masses", "Edit", "EditMix", "TcMass", "TcIn", "TcRates", "TcOut", "Ask"])
        if op == "Reset":
            t.append((op, [i])); f[i] = z = F([0] * 8); z.empty, z.acc, z.zero = True, True, True
            continue
        if op in ("Set", "Copy"):
            if op == "Copy" and y.zero: continue            # (only a fluid with a temperature and a pressure can be copied)
            x.zero, x.mf, x.traced, x.t = y.zero, list(y.mf), y.traced, y.t
            t.append((op, [i, j])); x.fl, x.empty, x.acc, x.wild = y.fl, y.empty, False, y.wild
            if op == "Copy": x.n = y.n
            continue
        if op == "Add":
            if y.empty or (y.wild and x.acc and r.random() < 0.8): continue
            q = r.choice([0, 0, 500, r.randint(1, 4000), -r.randint(1, 1000)])
            e = y.fl if q == 0 else q
            if e == 0 or x.fl + e <= 0 or x.fl + e > 46000 or abs(x.fl) + abs(e) > 5 * (x.fl + e): continue
            mf = [(x.mf[k] * x.fl + y.mf[k] * e) / (x.fl + e) for k in range(3)] if not x.empty else list(y.mf)
            if e < 0 and (x.empty or min(mf) < 0): continue         # (what isn't in a mixture can't be taken out of it)
            heat = lambda v: sum(v.mf[k] * (1050, 850, 5190)[k] for k in range(3))
            top, low = (x.t * x.fl * heat(x) + y.t * e * heat(y) if not x.empty else y.t * e * heat(y)), (x.fl * heat(x) + e * heat(y) if not x.empty else e * heat(y))
            if e < 0 and not 18000 < top / low < 42000: continue
            x.mf, x.t = mf, top / low
            x.traced = max(x.traced, y.traced)
            t.append((op, [i, j, q])); x.wild = x.wild or y.wild or not x.acc; x.fl += e; x.zero = y.zero or (x.zero and not x.empty); x.empty = False
            continue
        if x.empty: continue
        T = r.choice([30000, r.randint(20000, 40000)])
        if op == "Temp": x.t = T; t.append((op, [i, T]))
        if op == "Press": p = r.choice([0, 101325, r.randint(1000, 300000)]); x.zero = p == 0; t.append((op, [i, p]))
        if op == "Flow": x.fl = r.choice([0, 1000, r.randint(1, 9000)]); x.acc = False; t.append((op, [i, x.fl]))
        if op == "Mass": m = r.choice([0, 1000, r.randint(500, 5000)]); x.n = m > 0; x.acc = False; t.append((op, [i, m]))
        if op == "Mole": m = r.choice([0, r.randint(1000, 10000)]); x.n = m > 0; x.acc = False; t.append((op, [i, m]))
        if op == "Mix":
            m = r.choice([0, r.randint(500, 5000)]); v = thirds(r)
            if r.random() < 0.15: v[r.randrange(3)] += r.choice([50, 90, 200, -200, 500000])
            if abs(sum(v) - 1000000) <= 100: x.n = m > 0; x.acc = False; x.mf = [k / 1e6 for k in v]
            t.append((op, [i, m] + v))
        if op == "MixMole":
            m = r.choice([0, r.randint(1000, 10000)]); v = thirds(r)
            if r.random() < 0.15: v[r.randrange(3)] += r.choice([50, 90, 200, -200, 500000])
            if abs(sum(v) - 1000000) <= 100: x.n = m > 0; x.acc = False; x.mf = of_moles(v)
            t.append((op, [i, m] + v))
        if op == "Masses":
            v = [r.choice([0, r.randint(1, 1500)]) for _ in range(3)]
            if sum(v) >= 500: x.n = True; x.mf = [k / sum(v) for k in v]; x.acc = False; t.append((op, [i] + v))
        if op == "Edit": p = r.choice([-1, 0, 101325, r.randint(1000, 300000)]); x.zero = p <= 0; x.t = T; t.append((op, [i, T, p]))
        if op == "EditMix":
            v = [r.choice([0, -5, r.randint(1000, 90000)]) for _ in range(3)]
            if r.random() < 0.9 and sum(max(0, k) for k in v) == 0: v[0] = 5000
            x.t = T
            x.zero = not any(k > 0 for k in v)
            if not x.zero: x.acc = False; x.mf = of_moles([max(0, k) for k in v])
            t.append((op, [i, T] + v))
        if not x.wild and x.traced < 2 and op.startswith("Tc"):
            x.traced += 1                                   # (so that traces stay traces)
            if op == "TcIn": x.traced = max(x.traced, y.traced + 1)
            if op == "TcMass": t.append((op, [i, r.randint(0, 1), r.choice([0, r.randint(0, 100000)])]))
            if op == "TcIn" and not y.wild and not y.empty: t.append((op, [i, j, r.choice([0, r.randint(0, 5000)])]))
            if op == "TcRates": t.append((op, [i, 2 * r.randint(-20000, 20000), 2 * r.randint(-20000, 20000)]))
            if op == "TcOut": t.append((op, [i, r.choice([0, r.randint(0, 3000)])]))
        if op == "Ask": t.append((op, [i, r.randint(20000, 40000), r.choice([101325, r.randint(1000, 300000)])]))
    return t


def run(c):
    exe = B.build("fluids")
    k = {"CfgSet": "{<<30000, 100000, 1000, 1000, 0, 0, 100000, 0, 32000, 100000, 1000, 2000, 300, 200, 200000, 20000, 28000, 80000, 500, 1500, 100, 0, 0, 5000>>}", "MaxSteps": "4" if THOROUGH else "3", "Strict": "FALSE"}
    edges = c.model_check("Fluids", k, emit=True, workers=8, name="three fluids")
    paths, n = c.tours(edges, 60, None if THOROUGH else 1500)
    c.conform("Fluids", exe, paths, k, what="every edge of the state graph")
    r = random.Random(SEED)
    c.conform("Fluids", exe, [trace(r) for _ in range(12000 if THOROUGH else 2000)], CONSTS, what="random histories")
    c.known_finding("copied-fluid-partial-pressures", "Fluids", exe,
                    [("Init", [30000, 100000, 1000, 1000, 0, 0, 0, 0, 32000, 100000, 1000, 2000, 300, 200, 0, 0, 28000, 80000, 500, 1500, 100, 0, 0, 0]), ("Copy", [0, 1])], dict(CONSTS, Strict="TRUE"), 2)
