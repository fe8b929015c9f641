import random
import os
from vf import *

ONLY = os.environ.get("VF_ONLY", "")


def switch2(r, n):
    lim = lambda: r.choice([0, 0, 3, 5, 8, -4, 100])
    uv, ov = r.choice([0, 10, 20]), r.choice([0, 30, 40])
    t = [("Init", [r.randint(0, 1), r.randint(0, 1), r.randint(0, 1), uv, uv + r.choice([0, 2, 5, 5, -1]), ov, ov - r.choice([0, 2, 5, 5, -1]),
                   lim(), lim(), r.choice([0, 1, 1, 2, 3]), r.choice([1, 2, 2, 2, 0, -1])])]
    for _ in range(n):
        x = r.random()
        if x < 0.1: t.append(("Cmd", [r.choice([0, 1, 1])]))
        elif x < 0.13: t.append(("Reset", []))
        elif x < 0.2: t.append(("Malf", r.choice([[0, 0], [0, 0], [0, 1], [1, 0], [1, 1]])))
        elif x < 0.25: t.append(("Trip", [r.randint(1, 6)] + r.choice([[0, 0], [0, 0], [1, 0], [0, 1], [1, 1]])))
        elif x < 0.29: t.append(("Limit", [r.randint(1, 6), r.choice([0, 3, -3, 12, 15, 25, 35])]))
        elif x < 0.3: t.append(("Res", [r.choice([0, 1, 3, -1])]))
        elif x < 0.55: t.append(("Update", []))
        elif x < 0.57: t.append(("ResetTrips", []))
        else:
            amps, volts = r.choice([0, 2, 3, 4, 6, 9, 200, -5, -10]), r.choice([0, 9, 12, 14, 18, 22, 24, 26, 29, 33, 36, 41])
            for k in r.choice([[0], [1], [2], [1, 2], [0, 1], [1, 2, 3], [-1, 1, 2]]):
                t.append(("Solved", [amps, volts, k]))
                if r.random() < 0.5: t.append(("Update", []))
    return t


def switchutil(r, n):
    two = r.randint(0, 1)
    t = [("Init", [r.randint(0, 1), r.randint(0, 1), r.choice([0, 1, 1, 1]), two, r.choice([two, two, two, two, 1 - two, 3]),
                   r.choice([0, 1, 2, 3]) if r.random() < 0.2 else (r.randint(1, 3) if two else 1), r.choice([1, 2, 2, 3, 3, 1, 2, 0, -1]),
                   r.choice([0, 3, 5, 5, 8, 3, 5, -1]), r.choice([0, -3, -5, -1, -1, -3, -1, 1])])]
    for _ in range(n):
        x = r.random()
        if x < 0.12: t.append(("Cmd", [r.choice([0, 1, 1, 1])]))
        elif x < 0.16: t.append(("Reset", []))
        elif x < 0.2: t.append(("External", [r.choice([0, 1])]))
        elif x < 0.23: t.append(("Limits", [r.choice([0, 2, 5, 9, -1]), r.choice([0, -2, -7, 1])]))
        elif x < 0.28: t.append(("Malf", r.choice([[0, 0], [0, 0], [0, 1], [1, 0], [1, 1]])))
        elif x < 0.31: t.append(("Ignore", [r.randint(0, 1)]))
        elif x < 0.34: t.append(("MalfPos", [r.randint(0, 1), r.choice([0, 1, 4, 12])]))
        elif x < 0.37: t.append(("MalfNeg", [r.randint(0, 1), r.choice([0, -1, -4, -12])]))
        elif x < 0.4: t.append(("MalfRes", [r.randint(0, 1), r.choice([0, 1, 2, 50, 100, 200])]))
        elif x < 0.6: t.append(("Update", [r.choice([0, 1, 1, 1, 1, 1, 1, 1])]))
        else:
            amps = r.choice([0, 1, 2, 3, 4, 6, 9, 20, -1, -2, -4, -10])
            for k in r.choice([[0], [1], [2], [3], [1, 2], [0, 1], [1, 2, 3]]):
                t.append(("Flow", [amps, amps if r.random() < 0.8 else r.choice([0, 4, -4]), r.choice([0, 20, 28, -3]), k, r.choice([0, 0, 0, 1])]))
                if r.random() < 0.5: t.append(("Update", [1]))
    return t


def run(c):
    if ONLY in ("", "su"):
        consts = {"CfgSet": "{ <<k,1,1,1,1,2,2,3,-3>> : k \\in {0, 1} } \\cup { <<0,0,1,0,0,1,1,5,-1>>, <<0,0,1,0,1,1,1,5,-1>>, <<1,0,1,0,0,2,1,5,-1>>}",
                  "MaxEvents": 5 if THOROUGH else 4, "Amps": "{0, 4, -4}", "Steps": "{0, 1, 2}"}
        e = c.model_check("SwitchUtil", consts, name="su")
        exe = B.build("switchutil")
        paths, n = c.tours(e, 60, None if THOROUGH else 30000)
        c.conform("SwitchUtil", exe, paths, consts, what="utilgraph")
        r = random.Random(SEED)
        c.conform("SwitchUtil", exe, [switchutil(r, r.choice([20, 60, 200])) for _ in range(3000 if THOROUGH else 500)], consts, what="utilrandom")
    consts = {"CfgSet": "{ <<0,1,0,10,12,30,28,5,-5,2,1>>, <<1,1,0,10,12,0,0,5,0,1,1>>, <<0,0,0,9,8,0,0,0,0,1,1>>, <<0,0,0,0,0,0,0,0,0,1,0>> }",
              "MaxEvents": 5 if THOROUGH else 4, "Volts": "{0, 11, 20, 31}", "Amps": "{0, 6, -6}", "Steps": "{0, 1, 2}"}
    e = c.model_check("Switch2", consts, name="s2")
    exe = B.build("switch2")
    paths, n = c.tours(e, 60, None if THOROUGH else 30000)
    c.conform("Switch2", exe, paths, consts, what="graph")
    r = random.Random(SEED)
    c.conform("Switch2", exe, [switch2(r, r.choice([20, 60, 200])) for _ in range(3000 if THOROUGH else 500)], consts, what="random")
