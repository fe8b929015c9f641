import random
from vf import *


def config(r):
    reg = r.randrange(4)
    lim = r.choice([0, 0, 1])
    g, eff = r.choice([2, 5, 10]), r.choice([100, 80, 50])
    zero = lambda *x: r.choice(x + (0,))
    if reg < 2: ov, uv, oc = zero(55, 70, 45), zero(20, 38, 45), zero(2, 4, 10)
    elif lim:   ov, uv, oc = zero(60, 90), zero(10, 20), zero(12, 20)
    else:       ov, uv, oc = zero(60, 90, 30), zero(10, 20), zero(2, 4, 10)
    iuv, iov = zero(70, 85), zero(110, 130)
    sp = setpoint(r, reg)
    bat = r.choice([0, 0, 40, 60]) if reg != 3 else 0
    return [reg, lim, r.randint(0, 1), g, eff, ov, uv, oc, r.choice([0, 1, 2, 3, 4]), iuv, iov, r.choice([0, 1, 2, 3, 4]),
            r.choice([0, 80, 100, 100, 120]), sp, r.choice([1, 5, 10, 20]), bat]


def setpoint(r, reg):
    return r.choice([[0, 30, 50, 50, 60], [0, 300, 500, 500, 900], [0, 1, 3, 5, 9], [0, 20, 100, 300]][reg])


def ops(r, reg, steps):
    s = []
    for _ in range(steps):
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < 0.15: s.append(("Supply", [r.choice([0, 60, 78, 80, 100, 100, 120, 140])]))
            elif x < 0.3: s.append(("Setpoint", [setpoint(r, reg)]))
            elif x < 0.5: s.append(("Load", [r.choice([1, 2, 5, 10, 20, 40])]))
            elif x < 0.6: s.append(("Battery", [r.choice([0, 0, 40, 60, 100]) if reg != 3 else 0]))
            elif x < 0.68: s.append(("Enable", [r.randint(0, 1), r.choice([0, 1, 1])]))
            elif x < 0.76: s.append(("Block", [r.randint(0, 1), r.choice([0, 0, 500, 1000])]))
            elif x < 0.84: s.append(("Malf", [r.randrange(5), r.choice([0, 0, 1, 2])]))
            elif x < 0.97: s.append(("Reset", [r.randint(0, 1)]))
            else: s.append(("Restart", []))
        s.append(("Step", []))
        if r.random() < 0.3: s.append(("Step", []))
    return s


CONSTS = {"CfgSet": "{}", "SetpointSet": "<<>>", "SupplySet": "{}", "LoadSet": "{}", "BatterySet": "{}", "MaxSteps": "1"}


def trace(r):
    cfg = config(r)
    return [("Init", cfg)] + ops(r, cfg[0], r.choice([10, 20, 40]))


def run(c):
    small = {"CfgSet": "{<<0,0,0,5,80, 60,30,8,2, 85,130,2, 100,50,5,0>>, <<0,1,1,5,80, 60,20,4,2, 0,0,0, 100,50,5,0>>, "
                       "<<2,1,0,5,80, 60,10,12,1, 85,0,1, 100,5,5,0>>, <<1,0,1,10,100, 55,30,3,1, 85,110,3, 100,500,5,0>>}",
             "SetpointSet": "<<{0, 30, 50, 65}, {0, 300, 500, 900}, {0, 1, 5, 9}, {0, 100}>>", "SupplySet": "{0, 78, 100, 120}", "LoadSet": "{1, 5, 20}", "BatterySet": "{0, 75}", "MaxSteps": 4 if THOROUGH else 3}
    edges = c.model_check("Converter", small, emit=True, workers=8)
    exe = B.build("converter")
    paths, n = c.tours(edges, 40, 60000 if THOROUGH else 12000)
    c.conform("Converter", exe, paths, small, what="every edge of the state graph")
    r = random.Random(SEED)
    c.conform("Converter", exe, [trace(r) for _ in range(6000 if THOROUGH else 600)], CONSTS, what="random networks")
