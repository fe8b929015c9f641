import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxSteps": "1", "MaxTotal": "1"}


def config(r):
    z = lambda *x: r.choice(x + (0,))
    uv, ov = z(70, 90), z(125, 135)
    return [r.choice([120, 120, 100, 0]), r.choice([0, 0, 100, 140]), r.choice([300, 500, 800]), r.choice([-50, -200, -600]), r.choice([1, 2, 3, 4]),
            uv, uv + r.choice([0, 10]) if uv else 0, ov, ov - r.choice([0, 8]) if ov else 0, z(100, 250, 400), -z(20, 100), r.choice([0, 1, 2, 3]),
            r.choice([100, 250, 400]), r.choice([0, 1, 2, 3]), z(100, 300), -z(20, 100), r.choice([1, 2, 3]),
            r.choice([5, 10, 20]), z(90, 150), r.choice([100, 500, 1200]), z(60, 140), r.choice([4, 10, 50]), z(80, 200), r.choice([100, 800]), z(60, 100),
            r.choice([20, 60, 95]), r.choice([0, 0, 8, 16]), r.choice([2, 4, 6]), r.choice([1, 5, 20])]


def ops(r, n):
    s = []
    for _ in range(n):
        for _ in range(r.choice([0, 1, 1, 2])):
            x, k, j = r.random(), r.randrange(4), r.randint(1, 4)
            if x < 0.12: s.append(("Supply", [r.choice([0, 60, 80, 100, 120, 120, 130, 140])]))
            elif x < 0.18: s.append(("Battery", [r.choice([0, 0, 100, 140])]))
            elif x < 0.34: s.append(("Cmd", [k, r.choice([0, 1, 1])]))
            elif x < 0.42: s.append(("Reset", [k]))
            elif x < 0.48: s.append(("Fail", [k, r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 1])]))
            elif x < 0.50: s.append(("External", [r.choice([1, 3]), r.choice([0, 1])]))
            elif x < 0.58: s.append(("Mode", [j, r.choice([0, 1, 1, 2])]))
            elif x < 0.61: s.append(("Blow", [j, r.choice([0, 0, 1])]))
            elif x < 0.67: s.append(("Fuse", [j]))
            elif x < 0.73: s.append(("MalfI", [j, r.choice([0, 1]), r.choice([0, 10, 90, 200, 400])]))
            elif x < 0.79: s.append(("MalfP", [j, r.choice([0, 1]), r.choice([0, 500, 2000, 5000])]))
            elif x < 0.82: s.append(("Magic", [j, r.choice([0, 0, 1]), r.choice([0, 50, 120])]))
            elif x < 0.89: s.append(("Override", [r.randrange(3), r.choice([0, 0, 1]), r.choice([30, 120])]))
            elif x < 0.97:
                t = r.choice([0, 0, 1, 2])
                s.append(("Short", [r.randrange(2), t, r.choice([10, 20, 50]) if t < 2 else r.choice([500, 3000])]))
            else: s.append(("Restart", []))
        s.append(("Step", []))
        if r.random() < 0.3: s.append(("Step", []))
    return s


def trace(r):
    return [("Init", config(r))] + ops(r, r.choice([10, 20, 40]))


def run(c):
    small = {"CfgSet": "{<<120,0,500,-100,3, 90,100,130,125,300,-50,2, 250,2,200,-50,1, 10,150,600,200,10,150,600,100, 60,0,0,5>>, "
                       "<<120,0,300,-100,2, 0,0,0,0,250,-50,1, 250,1,100,-50,3, 10,0,600,0,10,0,600,0, 90,8,4,5>>}",
             "MaxSteps": "4" if THOROUGH else "3", "MaxTotal": "100"}
    edges = c.model_check("LoadNet", small, emit=True, workers=8)
    exe = B.build("loadnet")
    paths, n = c.tours(edges, 40, 60000 if THOROUGH else 8000)
    c.conform("LoadNet", exe, paths, small, what="every edge of the state graph")
    r = random.Random(SEED)
    c.conform("LoadNet", exe, [trace(r) for _ in range(6000 if THOROUGH else 600)], CONSTS, what="random networks")
