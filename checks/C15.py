import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "Volts": "{}"}


def trace(r):
    V = lambda: r.choice([0, 30, 60, 90, 100, 100, 110, 120, 120, r.randint(25, 130)])
    c = [r.randint(0, 1), r.choice([0, 0, 0, 0, 1, 2]), r.choice([5, 50, 100]), r.choice([1, 1, 1, 1, 50000]), r.choice([1, 5, 10, 20, 40]), V(), V(), 0]
    t = [("Init", c)]
    frame, lag, d, v, p = 0, r.choice([0, 1, 2, 5]), 0, 0, 0
    for k in range(r.choice([10, 40, 80])):
        if r.random() < 0.7:
            if r.random() < 0.25: d = r.randint(0, 1)
            if r.random() < 0.25: v = V()
            if r.random() < 0.25: p = r.choice([0, 50, 100, 300, r.randint(0, 300)])
            t.append(("In", [frame + 1, max(0, frame - lag) if r.random() < 0.95 else 0, d, p, v]))
        if r.random() < 0.2: t.append(("Supply", [r.randint(0, 1), r.choice([0, 1, 1]), V()]))
        if r.random() < 0.1: t.append(("Tie", [r.randint(0, 1), r.choice([0, 20])]))
        if r.random() < 0.1: t.append(("Load", [r.choice([1, 2, 10, 20, 50])]))
        if r.random() < 0.06: t.append(("Force", [r.choice([0, 0, 1, 2])]))
        if r.random() < 0.06: t.append(("Malf", [r.randint(0, 1), r.randint(0, 1)]))
        if r.random() < 0.02: t.append(("Restart", []))
        t.append(("Step", []))
        frame += 1
    return t


def run(c):
    exe = B.build("electif")
    k = {"CfgSet": "{<<p, 0, 50, 1, 10, v, 0, 0>> : p \\in 0..1, v \\in {0, 100}} \\cup {<<p, f, 50, 1, 10, 100, 90, 0>> : p \\in 0..1, f \\in 1..2}",
         "MaxSteps": "4" if THOROUGH else "3", "Volts": "{0, 100, 120}"}
    edges = c.model_check("ElectIf", k, emit=True, workers=8, name="side")
    paths, n = c.tours(edges, 120, None if THOROUGH else 1200)
    c.conform("ElectIf", exe, paths, k, what="every edge of the state graph of one side")
    r = random.Random(SEED)
    c.conform("ElectIf", exe, [trace(r) for _ in range(12000 if THOROUGH else 1500)], CONSTS, what="random histories")
    c.known_finding("elect-distributed-if-flux-twice", "ElectIf", exe,
                    [("Init", [0, 0, 50, 1, 10, 100, 90, 1]), ("In", [1, 0, 0, 0, 120]), ("Step", [])], CONSTS, 3)
