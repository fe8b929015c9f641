import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "Caps": "{}"}


def trace(r):
    over = r.choice([0, 0, 0, 1, 2, 3])
    enth = r.choice([0, 1]) if over in (0, 2, 3) else 0
    c = [r.randint(0, 1), enth, r.randint(0, 1), r.choice([0, 0, 0, 0, 1, 2]), over, r.choice([0, 1, 2]) if over else 0,
         r.choice([100000, 50000, r.randint(20000, 200000)]), r.randint(28000, 32000), r.choice([0, 1000, r.randint(0, 1000)]), r.choice([0, 100, 1000]), r.choice([1000, 500, 2500])]
    t = [("Init", c)]
    frame, lag = 0, r.choice([0, 1, 2, 5])
    cap, rem, remdem, rem_t = r.randint(50, 900) * 1000, r.randint(50, 900) * 1000, 0, 30000
    press = c[6]
    calm = r.choice([0.1, 0.5])
    for k in range(r.choice([10, 40, 80])):
        if r.random() < 0.3 or k == 0:
            if r.random() < calm or k == 0: cap = r.choice([cap, r.randint(50, 900) * 1000, rem, rem * 5 // 4 + 5000])
            t.append(("Cap", [cap] + r.choice([[1000, 0, 0, 0, 0]] * 3 + [[r.randint(1, 1000), r.randint(0, 1000), r.choice([0, 20000, 200000]), r.choice([0, r.randint(0, 1000)]), r.choice([0, 10000, 150000])]])))
        if r.random() < 0.15: t.append(("Node", [r.randint(28000, 32000), r.choice([0, 1000, r.randint(0, 1000)]), r.choice([0, 50, 2000])]))
        if r.random() < 0.15: t.append(("Inflow", [r.choice([0, 1]), r.randint(28000, 32000), r.choice([0, 1000, r.randint(0, 1000)]), r.choice([0, 70, 1500])]))
        if r.random() < 0.05: t.append(("Force", [r.choice([0, 0, 1, 2])]))
        if r.random() < 0.05: t.append(("Block", [r.randint(0, 1), r.choice([0, 50, 100, 25])]))
        restart = r.random() < 0.03
        if restart: t.append(("Restart", []))
        if r.random() < 0.85:
            frame += 1
            if r.random() < 0.3: remdem = r.randint(0, 1)
            if r.random() < 0.2: rem = r.choice([r.randint(50, 900) * 1000, cap, 0, 2 * cap])
            if r.random() < 0.3: rem_t = r.randint(28000, 33000)
            a, b = r.choice([(1000, 0), (700, 300), (0, 1000), (r.randint(1, 1000), r.randint(0, 1000))])
            src = r.choice([0, 5000, -5000, r.randint(-90000, 90000)]) if remdem else r.choice([press, press + 2000, max(1000, press - 2000), r.randint(10000, 250000)])
            m = [frame, max(0, frame - lag), remdem, rem, src, rem_t, a, b, 0 if over != 3 else r.choice([0, 100]), r.choice([0, 50, 900])]
            if r.random() < 0.06:                   # not valid
                k = r.choice([0, 3, 4, 5, 6, 9]); m[k] = 0 if k == 0 else r.choice([0, -1])
            if (m[6] == 0 if over == 1 else m[6] + m[7] == 0): m[6] = 10
            t.append(("In", m))
        if restart or r.random() < 0.95: t.append(("Inputs", []))
        if r.random() < 0.4: press = max(1000, r.choice([c[6], press + r.randint(-5000, 5000), r.randint(10000, 200000)]))
        t.append(("Step", [press, 0 if r.random() < 0.03 else 1]))
        if r.random() < 0.95: t.append(("Outputs", []))
    return t


def run(c):
    exe = B.build("fluidif")
    k = {"CfgSet": "{<<m, 0, d, 0, 0, 0, 100000, 30000, 200, 100, 1000>> : m \\in 0..1, d \\in 0..1} \\cup {<<1, 1, 0, f, o, 1, 100000, 30000, 200, 100, 1000>> : f \\in 1..2, o \\in {0, 3}}",
         "MaxSteps": "4" if THOROUGH else "3", "Caps": "{100000, 400000, 600000}"}
    edges = c.model_check("FluidIf", k, emit=True, workers=8, name="side")
    paths, n = c.tours(edges, 120, None if THOROUGH else 1200)
    c.conform("FluidIf", exe, paths, k, what="every edge of the state graph of one side")
    r = random.Random(SEED)
    c.conform("FluidIf", exe, [trace(r) for _ in range(12000 if THOROUGH else 1200)], CONSTS, what="random histories")
