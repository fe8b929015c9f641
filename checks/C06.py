import random
from vf import *


def history(r, n):
    """Random commands around a solver that records; the other thread writes at any time."""
    t = [("Init", [r.choice([0, 1, 1, 2, 2, 3]), r.choice([0, 1, 2, 3, 5, 8])])]
    for _ in range(n):
        x = r.random()
        if x < 0.2:
            t.append(("Cmd", [r.choice([0, 1, 1, 2, 2, 3, 3, 4])]))
        elif x < 0.25:
            t.append(("Size", [r.choice([0, 1, 2, 3, 5, 8])]))
        elif x < 0.3:
            t.append(("Freeze", []))
        elif x < 0.32:
            t.append(("Path", [r.choice([0, 0, 1])]))
        elif x < 0.5:
            t.append(("Async", []))
        else:
            t.append(("Begin", []))
            k = r.choice([1, 1, 2, 3, 4, 9])
            for j in range(k):
                bad = r.random() < 0.3
                t.append(("Minor", [r.randint(0, 5), (r.choice([2, 4, 5, 6, 1, 3]) if bad else 0) if j == k - 1 else r.choice([1, 2, 3]),
                                    r.choice([1, 1, 0, 2]), r.choice([1, 1, 0, 2]), r.randint(0, 90)]))
                if r.random() < 0.1:
                    t.append(("Async", []))
            t.append(("End", []))
    return t


def run(c):
    exe = B.build("minorlog")
    consts = {"CfgSet": "{ <<0, 2>>, <<1, 2>>, <<2, 1>>, <<3, 2>>, <<1, 0>>, <<0, 0>> }", "Sizes": "{0, 1, 2}",
              "MaxMajors": 3, "MaxMinors": 2, "Results": "{0, 2}"}
    e = c.model_check("MinorLog", consts, name="log")
    paths, n = c.tours(e, 60, None if THOROUGH else 40000)
    c.conform("MinorLog", exe, paths, consts, what="log")
    r = random.Random(SEED)
    c.conform("MinorLog", exe, [history(r, r.choice([10, 40, 120])) for _ in range(3000 if THOROUGH else 400)],
              consts, what="random")
