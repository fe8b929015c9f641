import random
from vf import *


def filtering(r, n):
    blocking = r.randint(0, 1)
    t = [("Init", [r.choice([0, 1, 1, 2, 5]), r.choice([-1, 1, 1, 2, 3]), r.choice([0, 1, 1, 2, 3, 5, 40]), blocking])]
    held, last, keys = False, None, r.choice([2, 4, 8, 16, 40])
    for _ in range(n):
        x = r.random()
        if x < 0.85:
            m = r.randrange(keys)
            if last is not None and r.random() < 0.3: m = last
            t.append(("Send", [r.choice([0, 1, 1, 2, 4, 5, 21]) if m == last else r.choice([1, 1, 1, 2, 4, 8]), r.choice([0, 0, 1, 2, 3, 4]), m]))
            last = m
        elif x < 0.93: 
            w = r.randint(1, 9)
            t.append(("Set", [w, r.randint(0, 1) if w > 3 else r.choice([-2, 0, 1, 2, 3, 30 if w == 3 else 4])]))
        elif x < 0.96 and not blocking:
            held = not held
            t.append(("Hold" if held else "Release", []))
        elif x < 0.98: t.append(("Restart", []))
        else: t.append(("Reset", []))
    return t


def managing(r, n):
    t = [("Init", [r.choice([-1, 0, 1, 2, 3, 8, 50]), r.choice([1, 2, 5]), r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 10, 60]),
                   r.choice([0, 1, 1]), r.choice([0, 0, 0, 1, 6, 16, 31]), r.choice([0, 1, 1]), r.randint(0, 5), r.choice([0, 1, 1, 1, 2, 3])])]
    if r.random() < 0.7: t.append(("PostInit", []))
    last = None
    for _ in range(n):
        x = r.random()
        if x < 0.65:
            m = [r.choice([0, 1, 1]), r.choice([0, 1, 2]), r.randint(0, 4), r.randint(1, 5)]
            if last and r.random() < 0.4: m = last
            t.append(("Msg", [r.choice([1, 1, 1, 2, 5, 30])] + m))
            last = m
        elif x < 0.8: t.append((r.choice(["Helper", "Helper", "Helper", "FreezeInit", "Freeze", "Unfreeze", "PostInit"]), []))
        elif x < 0.85: t.append(("Update", []))
        elif x < 0.9: t.append(("Fail", [r.choice([2, 3])]))
        elif x < 0.96: t.append(("Enable", [r.choice([1, 2, 3]), r.choice([0, 1, 1])]))
        elif x < 0.975: t.append(("List", [r.randint(0, 5)]))
        else: t.append((r.choice(["Restart", "Shutdown"]), []))
    return t


def run(c):
    consts = {"CfgSet": "{<<1, 1, 1, 0>>, <<1, 2, 2, 1>>, <<0, 0, 0, 0>>}", "MaxEvents": 6 if THOROUGH else 4, "Keys": "{0, 1, 2}"}
    e = c.model_check("HsFilter", consts)
    exe = B.build("hsfilter")
    paths, n = c.tours(e, 60, None if THOROUGH else 30000)
    c.conform("HsFilter", exe, paths, consts, what="graph")
    r = random.Random(SEED)
    c.conform("HsFilter", exe, [filtering(r, r.choice([30, 100, 400])) for _ in range(4000 if THOROUGH else 700)], consts, what="random")

    mc = {"CfgSet": "{<<1, 1, 1, 20, 1, 0, 1, 1, 1>>, <<2, 1, 1, 20, 0, 0, 1, 2, 3>>, <<2, 2, 2, 1, 1, 2, 0, 1, 2>>}",
          "MaxEvents": 6 if THOROUGH else 5, "Msgs": "{<<0, 0, 3, 1>>, <<0, 0, 4, 1>>, <<1, 2, 1, 2>>}"}
    e = c.model_check("HsMngr", mc)
    exe = B.build("hsmngr")
    paths, n = c.tours(e, 60, None if THOROUGH else 20000)
    c.conform("HsMngr", exe, paths, mc, what="graph")
    c.conform("HsMngr", exe, [managing(r, r.choice([30, 100, 300])) for _ in range(2000 if THOROUGH else 400)], mc, what="random")
