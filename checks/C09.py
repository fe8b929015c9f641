import random
from vf import *


def pair_run(r, n, rate=0.12):
    """Two sides run frames over a link of some latency, with occasional losses and forced roles."""
    prim = r.choice([(1, 0), (0, 1), (1, 1), (0, 0)])
    t = [("Init", [prim[0], r.choice([0, 28, 120]), prim[1], r.choice([0, 28, 120]), 0])]
    lat = [r.randint(0, 3), r.randint(0, 3)]
    volts = [0, 0]
    lossy = r.random() < 0.3 and rate > 0.1
    forces = r.random() < 0.4 and rate > 0.1
    for f in range(n):
        for x in r.sample([1, 2], 2) if lossy else [1, 2]:
            if r.random() < rate:
                k = r.randint(1, 2)
                t.append(("SetSupply", [x, k, r.randint(0, 3) > 0, r.choice([0, 5, 28, 100, 119, 120, 121, -3])]))
            if forces and r.random() < 0.08:
                t.append(("ForceRole", [x, r.randint(0, 2)]))
            if f >= lat[x - 1]:
                t.append(("Lose" if lossy and r.random() < 0.15 else "Deliver", [x]))
            t.append(("ProcessInputs", [x]))
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                t.append(("Update", [x, r.choice([0, 5, 28, 100, 119, 120, 121]), r.choice([0, 10, 250, 251])]))
            if r.random() < 0.1:
                t.append(("Pop", [x]))
            if not (lossy and r.random() < 0.1):
                t.append(("Send", [x]))
            if r.random() < 0.004:
                t.append(("ReInit", [x, r.randint(0, 1), r.choice([0, 28])]))
    return t


def run(c):
    exe = B.build("electbus")
    async_ = {"Lockstep": "FALSE", "MaxFrames": 3 if THOROUGH else 2, "Volts": "{0, 2}", "Latency": 1,
              "ChangeUntil": 0, "Settle": 0}
    lock = {"Lockstep": "TRUE", "MaxFrames": 24, "Volts": "{0, 2, 3}", "Latency": 3,
            "ChangeUntil": 5 if THOROUGH else 3, "Settle": 14}
    for what, consts in (("async", async_), ("lockstep", lock)):
        paths, n = c.tours(c.model_check("ElectBus", consts, name=what), 80, None if THOROUGH else 20000)
        c.conform("ElectBus", exe, paths, consts, what=what)
    r = random.Random(SEED)
    c.conform("ElectBus", exe, [pair_run(r, r.choice([10, 40, 120])) for _ in range(600 if THOROUGH else 120)]
              + [pair_run(r, 500, 0.003) for _ in range(6 if THOROUGH else 3)],       # long quiet runs
              async_, what="random")
