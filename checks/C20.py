import random
from vf import *


def sensor(r, n):
    kind = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7])
    b = lambda: r.randint(0, 1)
    conv = 0
    if kind in (0, 6):
        conv = r.choice([0, 0, 1, 2])
        lo, hi = r.choice([(-20, 20), (0, 100), (-5, 3000), (-50, 500)])
        if r.random() < 0.03: hi = lo - r.randint(0, 1)
        off = r.choice([lo, hi, max(lo, 0), lo + 1, lo - 1 if r.random() < 0.1 else lo])
        noisy = b() if kind == 0 else 0
        cfg = [lo, hi, off, r.choice([0, 0, 1, -3]), r.choice([1, 1, 1, 2, -1, 0]), r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2, 4, 8, -5]),
               conv, r.choice([0, 0, 1, 2]), noisy, b(), 5 * r.randint(-4, 12)]
    elif kind == 1: cfg = [b(), b(), b()]
    elif kind == 2: cfg = [b(), r.randint(-2, 8), r.choice([0, 1, 3, -1 if r.random() < 0.1 else 2]), b(), r.randint(-2, 8)]
    elif kind == 3: cfg = [b(), 8, r.choice([0, 1, 2]), 0, r.choice([0, 1, 2]), b()]
    elif kind in (4, 5): cfg = [b(), b(), b(), r.choice([0, 5, -5, 2, -1]), r.choice([1, 2, 3, 0 if r.random() < 0.1 else 1]), b()]
    else:
        omin = r.choice([-40, 0, -8])
        cfg = [r.choice([200, 100, 400]), omin, r.choice([0, 8, 40, 400]), r.choice([8, 4, 9]), r.choice([0, 0, 1, 2]), r.choice([3, 4, 6]),
               r.choice([20, 40]), r.choice([3, 4]), r.choice([4, 8, 2]), r.choice([0, 60, 100]), r.choice([0, 4, 8]), b(), b(), r.randint(0, 4), r.choice([0, 0, 4])]
        if r.random() < 0.1: cfg[r.choice([0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 13, 14])] = r.choice([-1, 0, 5, 900])
        if r.random() < 0.02: cfg[3] = r.choice([-1, 0, 1, 3, 20, 900])
    levels = [0, 1, 2, 3, 4]
    if kind == 7 and ((cfg[3] - cfg[7]) % 4 or cfg[2] % 4): levels = [0, 4]      # keeps every value a whole number
    if kind == 7 and cfg[13] in (1, 2, 3) and cfg[13] not in levels: cfg[13] = 4
    t = [("Init", [kind] + cfg)]
    for _ in range(n):
        x = r.random()
        if kind in (4, 5):
            p, f = r.choice([(0, 0), (1, 0), (1, 0), (1, 1)])     # a failed switch without power is unspecified
            t.append(("Sense", [b() if kind == 4 else r.randint(-9, 9), p, f]) if x < 0.8 else ("Failed", [b()]))
        elif x < 0.4: t.append(("Update", [r.choice([0, 1, 1, 1, 2])]))
        elif x < 0.6: t.append(("Truth", [b() if kind == 1 else 5 * r.randint(-6, 20) if kind == 0 else r.choice(levels) if kind == 7 else 5 * r.randint(0, 10) if kind == 6 else r.randint(-3, 11)]))
        elif x < 0.7: t.append(("Power", [r.choice([0, 1, 1])]))
        elif kind == 7: t.append(("Bit", [r.choice([0, 0, 1])]) if x < 0.9 else ("MalfSmoke", r.choice([[0, 0], [0, 0], [1, 0], [0, 1], [1, 1]])))
        elif x < 0.8:
            m = [0, 0, r.randint(0, 1) if kind in (1, 2, 3) else r.randint(-40, 200), 0, 0, 0]
            for i in (0, 1, 3, 4, 5):
                if r.random() < 0.2: m[i] = 1
            t.append(("Malf", m + ([r.randint(1, 2 if kind == 3 else 3)] if kind in (3, 6) else [])))
        elif x < 0.95 and kind in (0, 6):
            k = r.randint(1, 5)
            t.append(("Error", [k, b(), r.choice([0, 1, 2, -2, 3, 5]), r.choice([0, 1])] + ([r.randint(1, 3)] if kind == 6 else [])))
        elif kind == 0: t.append(("Noise", [r.choice([-1, 0, 1]), r.choice([-1, 0, 1])]) if x < 0.995 else ("Draw", [r.randint(1, 10 ** 6), 2000]))
    return t


def run(c):
    consts = {"CfgSet": "{<<0,-10,20,0,1,1,0,0,0,0,0,1,5>>, <<0,-10,2000,-2,0,2,1,2,1,1,1,1,5>>, <<1,1,1,0>>, <<1,0,0,1>>, <<2,0,8,1,1,0>>, <<2,1,0,0,0,9>>, "
                        "<<3,0,8,1,0,1,1>>, <<3,1,8,0,0,0,0>>, <<4,0,0,0,0,1,1>>, <<5,1,0,1,5,1,0>>, <<5,1,0,1,-5,2,0>>, <<6,0,50,0,0,1,0,0,0,0,0,1,5>>, "
                        "<<7,100,-40,40,8,0,4,20,4,8,60,4,1,0,0,0>>, <<7,100,-40,400,8,1,4,20,4,2,60,4,0,1,4,0>>, <<0,5,5,5,0,1,0,0,0,0,0,1,5>>}",
              "MaxEvents": 12 if THOROUGH else 6, "Truths": "{0, 5, 30}"}
    e = c.model_check("Sensors", consts)
    exe = B.build("sensors")
    paths, n = c.tours(e, 60, None if THOROUGH else 30000)
    c.conform("Sensors", exe, paths, consts, what="graph")
    r = random.Random(SEED)
    c.conform("Sensors", exe, [sensor(r, r.choice([20, 60, 200])) for _ in range(6000 if THOROUGH else 800)], consts, what="random")
