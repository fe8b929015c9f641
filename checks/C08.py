import random
from vf import *


def mixture(r, bad):
    def v(n):
        return [n] + [(-1 if r.random() < bad else r.choice([0, 1, 2, 5])) for _ in range(n)]
    return v(r.randint(0, 4)) + v(r.randint(0, 3))


def pair_run(r, n, rate=0.15):
    t = [("Init", [r.randint(0, 1), r.randint(0, 3), r.randint(0, 2), r.randint(0, 1), r.randint(0, 3), r.randint(0, 2), 0,
                   r.choice([0, 0, 0, 1, 2]), r.choice([0, 0, 0, 1, 2])])]
    lat = [r.randint(0, 4), r.randint(0, 4)]
    lossy, forces, noisy = [r.random() < x and rate > 0.1 for x in (0.3, 0.4, 0.3)]
    caps = [r.randint(1, 12), r.randint(1, 12)]
    bad = 0.02 if r.random() < 0.3 else 0
    for f in range(n):
        for x in r.sample([1, 2], 2) if lossy else [1, 2]:
            if r.random() < rate:
                caps[x - 1] = r.choice([0, 1, 4, 5, 6, 7, 8, 9, 10, 12, 40])
            if forces and r.random() < 0.08:
                t.append(("ForceRole", [x, r.randint(0, 2)]))
            if f >= lat[x - 1]:
                t.append(("Lose" if lossy and r.random() < 0.15 else "Deliver", [x]))
            t.append(("ProcessInputs", [x]))
            for k in r.sample(["GetFluid", "GetFlow", "DemandLimit"], r.randint(0, 3)):
                t.append((k, [x, r.choice([0, 1, 1, 2]), r.randint(0, 50)] if k == "DemandLimit"
                          else [x, r.randint(0, 4), r.randint(0, 3)]))
            for k in r.sample(["SetFluid", "SetFlow"], 2):
                if r.random() < 0.9:
                    p = r.choice([0, 1, 20, 50, -1 if noisy else 3]) if k == "SetFluid" else r.randint(-20, 20)
                    t.append((k, [x, p, r.choice([1, 290, 300, 0 if noisy else 2])] + mixture(r, bad)))
            t.append(("ProcessOutputs", [x, caps[x - 1] if not noisy or r.random() < 0.97 else -1]))
            if r.random() < 0.1:
                t.append(("Pop", [x]))
            if not (lossy and r.random() < 0.1):
                t.append(("Send", [x]))
    return t


def run(c):
    exe = B.build("fluidbus")
    async_ = {"Lockstep": "FALSE", "MaxFrames": 3 if THOROUGH else 2, "Caps": "{4, 6}", "Latency": 1,
              "ChangeUntil": 0, "Settle": 0}
    lock = {"Lockstep": "TRUE", "MaxFrames": 26, "Caps": "{4, 5, 6}", "Latency": 3,
            "ChangeUntil": 5 if THOROUGH else 3, "Settle": 16}
    for what, consts in (("async", async_), ("lockstep", lock)):
        paths, n = c.tours(c.model_check("FluidBus", consts, name=what), 60, None if THOROUGH else 9000)
        c.conform("FluidBus", exe, paths, consts, what=what)
    r = random.Random(SEED)
    c.conform("FluidBus", exe, [pair_run(r, r.choice([10, 40, 120])) for _ in range(600 if THOROUGH else 120)]
              + [pair_run(r, 500, 0.003) for _ in range(6 if THOROUGH else 3)],       # long quiet runs
              async_, what="random")
