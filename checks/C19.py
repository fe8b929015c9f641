import random
from vf import *

MOTOR = {"CfgSet": "{}", "MaxEvents": "1", "MaxSteps": "1"}
PID = {"CfgSet": "{}", "MaxEvents": "1", "Ins": "{}", "Times": "{}"}


def pump(r):
    mn = r.choice([0, 20, 24]); trip = r.choice([350, 400])
    cfg = [0, r.choice([10, 30, 50, 100, 0]), r.choice([0, 5, 10, 20]), r.choice([1, 1, 5, 20, 0]), trip, trip - r.choice([10, 50]), mn, r.choice([32, 40]), r.choice([0, 10, 25]),
           r.choice([0, 0, 50, 300]), r.choice([0, 1, 1, 2, 3]), r.choice([1, 5, 20]), r.choice([50, 100, 300]), r.choice([5, 10]), r.choice([0, 20, 200]), r.choice([0, 100]),
           r.choice([200, 500, 2000])]
    t = [("Init", cfg), ("Volts", [28]), ("Temp", [300]), ("Command", [1, r.choice([1000, 2000])])]
    if r.random() < 0.5: t.append(("Load", [-r.choice([1000, 5000, 20000]), 0]))
    b = lambda: r.choice([0, 0, 1])
    for _ in range(r.choice([10, 30, 80])):
        if r.random() < 0.4:
            x = r.random()
            if x < 0.15: t.append(("Volts", [r.choice([0, mn, mn - 1 if mn else 28, cfg[7], cfg[7] + 1, 28, 28])]))
            elif x < 0.35: t.append(("Temp", [r.choice([300, cfg[4], cfg[4] + 1, cfg[5], cfg[5] - 1, cfg[5] + 5])]))
            elif x < 0.55: t.append(("Command", [r.choice([0, 1, 1, 1]), r.choice([0, 1000, 1500, 2000, 4000, -5])]))
            elif x < 0.63: t.append(("Load", [r.choice([0, -1000, -5000, -20000, 2000]), r.choice([0, -3000])]))
            elif x < 0.71: t.append(("Power", [b(), b(), r.choice([0, 28, 30, mn])]))
            elif x < 0.77: t.append(("Speed", [b(), r.choice([0, 1200, 3000])]))
            elif x < 0.82: t.append(("Degrade", [b(), r.choice([0, 30, 90, 100])]))
            elif x < 0.88: t.append(("Jam", [b(), r.choice([10, 50, 100])]))
            elif x < 0.95: t.append(("Spin", [b(), r.choice([0, 1000, 3000])]))
            else: t.append(("Heat", [b(), r.choice([0, 5, 50])]))
        if r.random() < 0.9: t.append(("Sense", [-1 if r.random() < 0.9 else r.choice([0, 1000, 1980, 2000, 4000])]))
        t.append(("Step", []))
    return t


def pwm(r):
    cfg = [1, r.choice([0, 10, 30]), r.choice([5, 20]), r.choice([0, 2, 10]), -r.choice([0, 100, 2000]), r.choice([10, 50]), r.choice([50, 200]), r.choice([50, 200, 1000]), r.choice([50, 200, 1000])]
    t = [("Init", cfg), ("Volts", [28]), ("Width", [r.choice([50, 100])])]
    b = lambda: r.choice([0, 0, 1])
    for _ in range(r.choice([10, 30, 60])):
        if r.random() < 0.5:
            x = r.random()
            if x < 0.25: t.append(("Volts", [r.choice([0, 12, 28, 28, 40])]))
            elif x < 0.5: t.append(("Width", [r.choice([0, 20, 50, 100])]))
            elif x < 0.65: t.append(("Load", [r.choice([0, -1000, -5000, -20000, 2000]), r.choice([0, -3000])]))
            elif x < 0.75: t.append(("Degrade", [b(), r.choice([0, 30, 90, 100])]))
            elif x < 0.85: t.append(("Jam", [b(), r.choice([10, 50, 100])]))
            elif x < 0.95: t.append(("Spin", [b(), r.choice([0, 1000, 3000])]))
            else: t.append(("Heat", [b(), r.choice([0, 5, 50])]))
        t.append(("Step", []))
    return t


def pid(r):
    every = r.randint(1, 3)
    lo = -r.choice([0, 100, 2000]); hi = r.choice([50, 100, 3000])
    g = lambda: r.choice([0, 0, 1, 2, -1, -2, 4])
    def cfg(): return [g(), g(), g(), every, lo, hi, 60 * r.randint(-3, 3), 60 * r.randint(-3, 3), r.choice([0, 0, 1]), 60 * r.choice([0, 0, 1, -4]), r.choice([0, 10, lo, hi])]
    t = [("Init", cfg())]
    for _ in range(r.choice([10, 40, 100])):
        x = r.random()
        if x < 0.5: t.append(("Update", [r.choice([0, 1, 1, 2])]))
        elif x < 0.7: t.append(("With", [r.choice([0, 1, 1, 2]), 60 * r.randint(-3, 3)]))
        elif x < 0.8: t.append(("Input", [60 * r.randint(-3, 3)]))
        elif x < 0.92: t.append(("Setpoint", [60 * r.randint(-3, 3)]))
        elif x < 0.95: t.append(("Gains", [g(), g(), g()]))
        elif x < 0.97: t.append(("Interval", [r.choice([1, 2, 3, 0])])); 
        elif x < 0.99: t.append(("Limits", r.choice([[lo, hi], [-10, 10], [-3000, 3000]])))
        else: t.append(("Reset", cfg()))
    return t


def fits(t):                      # every time between updates divides 60
    every, timer = t[0][1][3], t[0][1][8]
    for n, a in t[1:]:
        if n == "Reset": every, timer = a[3], a[8]
        elif n == "Interval": every = a[0]
        elif n in ("Update", "With"):
            timer += a[0]
            if every and timer >= every:
                if 15 % timer and 60 % timer: return False
                timer = 0
    return True


def run(c):
    r = random.Random(SEED)
    small = {"CfgSet": "{<<0,30,10,1,350,320,20,32,10,0,0,5,100,10,20,0,500>>, <<0,50,0,5,350,320,24,36,0,100,1,20,100,10,0,100,500>>, <<1,10,20,2,-100,50,200,500,200>>}",
             "MaxEvents": "100", "MaxSteps": "5" if THOROUGH else "4"}
    edges = c.model_check("Motor", small, emit=True, workers=8, name="motor")
    exe = B.build("motor")
    paths, n = c.tours(edges, 60, 100000 if THOROUGH else 8000)
    c.conform("Motor", exe, paths, small, what="every edge of the motors' state graph")
    c.conform("Motor", exe, [pump(r) for _ in range(8000 if THOROUGH else 800)] + [pwm(r) for _ in range(2000 if THOROUGH else 200)], MOTOR, what="random histories of motors")
    small = {"CfgSet": "{<<2,1,1,2,-100,100,0,60,0,0,0>>, <<-1,0,4,1,-1000,50,0,0,0,0,10>>}", "MaxEvents": "7" if THOROUGH else "6", "Ins": "{0, 60}", "Times": "{1, 2}"}
    edges = c.model_check("Pid", small, emit=True, workers=8, name="pid")
    exe = B.build("pid")
    paths, n = c.tours(edges, 100, 100000 if THOROUGH else 10000)
    c.conform("Pid", exe, paths, small, what="every edge of the PID controller's state graph")
    c.conform("Pid", exe, [t for t in (pid(r) for _ in range(20000 if THOROUGH else 2000)) if fits(t)], PID, what="random histories of the PID controller")
