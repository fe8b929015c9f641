import random
from vf import *

CONSTS = {"CfgSet": "{}", "MaxEvents": "1", "Temps": "{}"}


def trace(r):
    n = r.choice([1, 1, 2, 3]); logic = r.choice([1, 2]) if n > 1 else r.choice([0, 1, 2])
    lo = r.choice([1100, 1160]); hi = lo + r.choice([1, 40, 80])
    mlo = lo + r.choice([-60, 20, 100]); mhi = mlo + r.choice([1, 40, 80])
    near = [lo, hi, mlo, mhi]
    temp = lambda: r.choice(near) + r.choice([-40, -1, 0, 0, 1, 30, 40]) if r.random() < 0.9 else r.choice([0, 700, 2500])
    t = [("Init", [logic, n, lo, hi, mlo, mhi, 800, 1600, r.choice([800, 1600, 1000]), temp()])]
    b = lambda: r.choice([0, 0, 1])
    for _ in range(r.choice([15, 40, 100])):
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < 0.5: t.append(("Temp", [r.randint(1, n), temp()]))
            elif x < 0.6: t.append(("Sensor", [r.randint(1, n), b(), temp(), b(), b(), r.choice([0, 0, 0, 1])]))
            elif x < 0.66: t.append(("Setpoint", [(lo + hi) // 2 + r.choice([0, -30, 30, 80])] if (lo + hi) % 2 == 0 else ["x"]))
            elif x < 0.72: t.append(("Bias", [r.choice([0, 0, -30, 40, 200])]))
            elif x < 0.79: t.append(("Low", [b(), mlo + r.choice([0, 0, 0, -20, 200])]))
            elif x < 0.86: t.append(("High", [b(), mhi + r.choice([0, 0, 0, 20, -200])]))
            elif x < 0.94: t.append(("Malf", [b(), b()]))
            else: t.append(("Kill", [b()]))
            if t[-1][1] == ["x"]: t.pop()
        t.append(("Update", []))
    return t


def run(c):
    small = {"CfgSet": "{<<%d,%d,1160,1200,1180,1240,800,1600,800,1180>> : k \\in {1}}", "MaxEvents": "10" if THOROUGH else "8", "Temps": "{1150, 1190, 1220, 1250}"}
    small["CfgSet"] = "{<<0,1,1160,1200,1180,1240,800,1600,800,1180>>, <<1,2,1160,1200,1120,1180,800,1600,800,1180>>, <<2,2,1160,1200,1180,1240,800,1600,800,1180>>}"
    edges = c.model_check("Thermostat", small, emit=True, workers=8)
    exe = B.build("thermostat")
    paths, n = c.tours(edges, 200, None if THOROUGH else 40000)
    c.conform("Thermostat", exe, paths, small, what="every edge of the state graph")
    r = random.Random(SEED)
    c.conform("Thermostat", exe, [trace(r) for _ in range(20000 if THOROUGH else 2000)], CONSTS, what="random histories")
