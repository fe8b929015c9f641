import random
from vf import *

BASE, POWERED, TOGGLE, OPENCLOSE, POSITION, SPEED, DUAL, TVALVE, TASM, OASM, DASM = range(11)
KIND = {TASM: TOGGLE, OASM: OPENCLOSE, DASM: DUAL}


def valve(r, n):
    kind = r.randint(0, 10)
    k = KIND.get(kind, kind)
    lo = r.choice([0, 0, -4, 2])
    q = lambda: 4 * lo + r.choice([0, 32, r.randint(0, 32), r.randint(-8, 40) if r.random() < 0.1 else r.randint(0, 32)])
    far = lambda: 4 * lo + r.choice([0, 32, r.randint(-10, 42)])
    ref = r.choice([1, 1, 2, -1, -2])
    if r.random() < 0.01: ref = 0
    b = lambda: r.randint(0, 1)
    fl = r.choice([(0, 8), (0, 8), (2, 6), (-2, 10), (0, 4), (4, 4) if r.random() < 0.1 else (1, 8)])
    t = [("Init", [kind, lo, fl[0], fl[1], q(), r.random() < 0.2, q(), r.randint(0, 2), ref, r.choice([1, 2, 4, 8]) if r.random() < 0.98 else 0,
                   b(), b() if k != DUAL else 0, b() if k != DUAL else r.randint(0, 1), r.choice([-1, 0, 1, 2]), r.choice([0, 1, 4, 9]), r.choice([0, 1, 6])])]
    t[0] = ("Init", [int(x) for x in t[0][1]])
    powered = k in (POWERED, TOGGLE, OPENCLOSE, POSITION, SPEED)
    if powered and r.random() < 0.7: t += [("Supply", [1]), ("Enable", [1])]
    for _ in range(n):
        x = r.random()
        if x < 0.45: t.append(("Update", [r.choice([0, 1, 1, 1, 2] if k != POSITION else [0, 1, 1, 2, 4])]))
        elif x < 0.5: t.append(("SetPos", [far()])) if r.random() < 0.3 else None
        elif x < 0.53 and k != TVALVE: t.append(("Manual", [r.choice([0, 0, 1]), far()]))
        elif x < 0.57: t.append(("MalfValve", r.choice([[0, 0, 0, 0], [0, 0, 0, 0], [1, 0, 0, 0], [0, 1, far(), 0], [1, 1, far(), 0], [0, 0, 0, 1]])))
        elif x < 0.62 and powered: t.append(("MalfDrive", r.choice([[0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, far()], [1, 1, far()]])))
        elif x < 0.66 and powered: t.append(("MalfPower", r.choice([[0, 0], [0, 0], [1, 0], [0, 1], [1, 1]])))
        elif x < 0.7 and powered: t.append(("Supply", [r.choice([0, 1, 1])]))
        elif x < 0.74 and powered: t.append(("Enable", [r.choice([0, 1, 1])]))
        elif kind in (TASM, OASM, DASM) and x < 0.78: t.append(("MalfSense", [r.randint(1, 2), r.choice([0, 0, 1]), b()]))
        elif k in (TOGGLE, OPENCLOSE, SPEED) and kind == k and x < 0.82: t.append(("Sensed", r.choice([[0, 0], [1, 0], [0, 1], [1, 1]])))
        elif k == POWERED: t.append(("Cmd", [r.choice([-2, -1, 0, 1, 1, 3])]))
        elif k == SPEED: t.append(("Speed", [r.choice([-2, -1, 0, 1, 1, 3])]))
        elif k == TOGGLE: t.append(("Toggle", [b()]) if r.random() < 0.7 else ("Queue", [r.randint(0, 3) for _ in range(r.choice([0, 0, 1, 2, 3, 7]))]))
        elif k == OPENCLOSE: t.append(("OpenClose", [b(), b()]) if r.random() < 0.8 else ("Handle", [r.choice([0, 0, 1]), b()]))
        elif k == POSITION: t.append(("PosCmd", [far()]) if r.random() < 0.5 else ("PosSensed", [far()]))
        elif k == DUAL: t.append(("Solenoid", [b(), b()]) if r.random() < 0.7 else ("MalfSolenoid", r.choice([[0, 0], [0, 0], [1, 0], [0, 1], [1, 1]])))
        elif k == TVALVE: t.append(("Select", [r.choice([0, 1, 2, 1, 2, 3])]))
    return t


def run(c):
    consts = {"CfgSet": "{ <<k,0,0,8,s,0,4,(k + s) % 3,1,4,e,k % 6 \\div 6,1,1,1,1>> : k \\in 0..10, s \\in {0, 12}, e \\in 0..1 } "
                        "\\cup {<<1,-4,2,6,0,1,4,0,-2,2,0,1,1,-1,0,0>>, <<5,-4,2,6,0,0,4,0,-2,2,1,1,1,-1,0,0>>, <<1,0,4,4,0,0,0,0,1,1,0,0,0,0,0,0>>}",
              "MaxEvents": 7 if THOROUGH else 5, "Dts": "{0, 1, 2}" if THOROUGH else "{0, 1}", "Ops": 1}
    e = c.model_check("ValveCtl", consts)
    exe = B.build("valvectl")
    paths, n = c.tours(e, 60, None if THOROUGH else 40000)
    c.conform("ValveCtl", exe, paths, consts, what="graph")
    r = random.Random(SEED)
    c.conform("ValveCtl", exe, [valve(r, r.choice([20, 60, 200])) for _ in range(6000 if THOROUGH else 800)], consts, what="random")
