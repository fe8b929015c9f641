import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1"}


def cfg(r, pcb, solo):
    z = lambda x: 0 if solo else x
    tpc = r.choice([280, 300, 320])
    return [r.choice([1, 1, 4, 8]), r.choice([100, 500, 2000]), r.choice([100, 500, 2000]), 0 if pcb else r.choice([100, 500, 2000])] + \
           [r.choice([250, 290, 300, 310, 350]) for _ in range(2)] + [r.choice([tpc, tpc, tpc - 2, tpc + 3])] + \
           [z(r.choice([10, 50, 300])), z(r.choice([10, 50, 300])), z(r.choice([0, 10, 200])), z(r.choice([0, 10, 200])), r.choice([5, 20, 200]),
            r.choice([250, 293, 350]), r.choice([0, 25, 50, 100]), r.choice([0, 40, 100]), r.choice([10, 50, 90]), r.choice([100, 100, 80, 120]),
            tpc, r.choice([20, 100, 200]), r.choice([100, 200]), r.choice([50, 200]), r.choice([10, 100]), r.choice([5, 20, 100]), r.choice([0, 0, 2, 50, 98, 100, 100]),
            r.choice([50, 80]), r.choice([10, 25])]


def trace(r):
    pcb = r.random() < 0.6
    t = [("Init", cfg(r, pcb, r.random() < 0.1))]
    hold = r.choice(["none", "none", "store", "store2", "src"])
    which = r.randint(0, 3)
    b = lambda: r.choice([0, 1])
    pc = lambda: r.choice([0, 25, 50, 75, 100])
    for _ in range(r.choice([10, 30, 80])):
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            x = r.random()
            if x < 0.22: t.append(("Ext", [2 if r.random() < 0.6 else r.randint(0, 1), r.choice([0, 3, 14]), r.choice([0, 0, 20, -20, 150, -150, 400, -400])]))
            elif x < 0.30: t.append(("Queue", [r.choice([0, 3, 14]), r.randint(0, 4)] + [r.choice([0, 8, 40, -16, 100]) for _ in range(4)]))
            elif x < 0.36: t.append(("Demand", [r.choice([0, 10, 200])]))
            elif x < 0.44: t.append(("Power", [r.choice([0, 10, 200])]))
            elif x < 0.48: t.append(("Sun", [r.choice([0, 400, 1360])]))
            elif x < 0.54: t.append(("Multi", [r.randint(0, 4), pc(), r.choice([0, 400, 1360])]))
            elif x < 0.60: t.append(("Boundary", [r.choice([250, 293, 350, 300])]))
            elif x < 0.64: t.append(("View", [r.randint(0, 1), pc()]))
            elif x < 0.67: t.append(("Conduct", [r.randint(0, 1), r.choice([0, 10, 100])]))
            elif x < 0.73: t.append(("Block", [r.randint(0, 4), b(), pc()]))
            elif x < 0.79: t.append(("BlockSrc", [r.randint(0, 3), b(), pc()]))
            elif x < 0.85: t.append(("Flux", [r.randint(0, 3), b(), r.choice([0, 50, -50, 200])]))
            elif x < 0.90:
                if hold == "src": t.append(("HoldSrc", [which, b(), r.choice([280, 300, 325])]))
                elif hold != "none": t.append(("Hold", [2 if hold == "store2" else which % 3, b(), r.choice([280, 300, 325])]))
            elif x < 0.95 : 
                k = r.randint(0, 1 if pcb else 2)
                t.append(("Capacity", [k, r.choice([100, 500, 2000] + ([0] if k == 1 else []))]))
            elif pcb: t.append(("Leak", [b(), r.choice([0, 1, 5, 50])]))
        t.append(("Step", []))
    return t


def run(c):
    small = dict(CONSTS)
    small["CfgSet"] = "{<<8,100,100,0,300,300,300,0,0,0,0,20,300,50,50,50,100,300,20,200,100,10,5,%d,50,100>> : h \\in {0}}".replace("%d", "h")
    small["CfgSet"] = "{<<8,100,100,0,300,300,300,0,0,0,0,20,300,50,50,50,100,300,20,200,100,10,5,h,50,100>> : h \\in {0, 50, 100}}"
    small["MaxSteps"] = "4" if THOROUGH else "3"
    edges = c.model_check("Thermal", small, emit=True, workers=8)
    exe = B.build("thermal")
    paths, n = c.tours(edges, 200, None if THOROUGH else 40000)
    c.conform("Thermal", exe, paths, small, what="every edge of the state graph")
    r = random.Random(SEED)
    c.conform("Thermal", exe, [trace(r) for _ in range(10000 if THOROUGH else 1200)], CONSTS, what="random histories")
