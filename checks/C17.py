import random
from vf import *


def schedule(r, n):
    blocking = r.randint(0, 1)
    t = [("Init", [r.choice([-3, 0, 1, 1, 2, 2, 3, 5, 40]), blocking])]
    msg, live, held = 0, {}, False
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            free = [k for k in (1, 2, 3, 4) if k not in live]
            if not free: continue
            k, op = r.choice(free), r.choice([1, 2])
            if op == 1: msg += 1
            live[k] = op
            t.append(("Begin", [k, op, msg if op == 1 else 0]))
        elif x < 0.7:
            able = [k for k in live if not held or (live[k] == 1 and not blocking)]
            if not able: continue
            k = r.choice(able)
            del live[k]
            t.append(("End", [k]))
        elif x < 0.8 and (not held or not blocking):
            msg += 1
            t.append(("Insert", [msg]))
        elif x < 0.9 and not held: t.append(("Remove", []))
        elif x < 0.97:
            held = not held
            t.append(("Hold" if held else "Release", []))
        elif not held and not live:
            blocking = r.randint(0, 1)
            t.append(("Resize", [r.choice([-1, 0, 1, 2, 3, 4, 30]), blocking]))
    return t


def run(c):
    consts = {"CfgSet": "{<<1, 0>>, <<2, 0>>, <<2, 1>>, <<0, 1>>}", "MaxEvents": 9 if THOROUGH else 7, "Sizes": "{1, 2, 3}",
              "Threads": "{1, 2, 3}"}
    e = c.model_check("HsQueue", consts)
    exe = B.build("hsqueue")
    paths, n = c.tours(e, 40, None if THOROUGH else 40000)
    for p in paths:     # the graph tells messages apart only by their age
        m = 0
        for i, (name, a) in enumerate(p):
            if name == "Insert" or (name == "Begin" and a[1] == 1):
                m += 1
                p[i] = (name, [m] if name == "Insert" else [a[0], 1, m])
    c.conform("HsQueue", exe, paths, consts, what="graph")
    r = random.Random(SEED)
    c.conform("HsQueue", exe, [schedule(r, r.choice([30, 100, 300])) for _ in range(3000 if THOROUGH else 600)], consts, what="random")
