----------------------------- MODULE Pumps -----------------------------
(* Displacement pumps (GunnsGasDisplacementPump, GunnsLiquidDisplacementPump), fans and centrifugal pumps (GunnsGasFan, GunnsLiquidCentrifugalPump),
   gas turbines (GunnsGasTurbine), the cavitation of the liquid pumps (GunnsPumpCavitation) and the drive shaft (GunnsDriveShaftSpotter): one machine
   between two nodes whose states the environment imposes; steps of 1/8 s. What a step does is stated by what is observed before it (o.before).

   Units, gas (liquid): pressure 0.1 Pa (10 Pa), volume flow 1e-6 (1e-8) m3/s, density 1e-4 (0.1) kg/m3, mass flow 1e-6 (1e-5) kg/s; flux the same of kmol;
   speed 0.1 rpm, power mW, torque 1e-5 Nm, times ms, molecular weight 0.001, cavitated fraction and efficiency 1e-6 and 1e-4.
   volume flow x pressure = 1e-7 W. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps

GASDISP == 0  LIQDISP == 1  FAN == 2  CENTRIFUGAL == 3  TURBINE == 4
FULL == 1000000
DTMS == 125

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
Within(x, y, tol) == Abs(x - y) <= tol
\* x y / d for 0 < d <= 46340; y >= 0
MD(x, y, d) == IF x < 0 THEN -((((-x) \div d) * y) + (((-x) % d) * (y \div d)) + ((((-x) % d) * (y % d)) \div d))
               ELSE (x \div d) * y + (x % d) * (y \div d) + (((x % d) * (y % d)) \div d)
Root(x) == LET RECURSIVE G(_, _) G(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN G(m, hi) ELSE G(lo, m) IN G(0, 46340)

(* cfg = <<1 kind, 2 drive ratio (0.01), 3 check valve, 4 cycle volume, 5 conductivity (1e-6 m2), 6 reference density, 7 reference speed (rpm), 8 dead-head pressure,
           9 flow at no pressure, 10 flow at best efficiency (0: none), 11 efficiency %, 12 filter gain %, 13 auto cavitation, 14 its duration, 15 its amplitude,
           16 motor speed, 17 on a shaft, 18 inertia (1e-3 kgm2), 19 friction (1e-6 Nm/rpm), 20 least speed of friction (rpm)>>
   turbine: 6 reference temperature (K), 7 reference pressure (kPa), 8, 9 largest flow (1e-4 kg/s), 10, 11 and 13, 14 coefficients (0.01), 15, 21 and 22, 23 efficiency (0.01),
           24, 25 and 26, 27 limits of the pressure ratio (0.01) at low and high speed, 28, 29 these speeds (rpm) *)
Kind(s) == s.c[1]
Disp(s) == Kind(s) \in {GASDISP, LIQDISP}
Fan(s) == Kind(s) \in {FAN, CENTRIFUGAL}
Liquid(s) == Kind(s) \in {LIQDISP, CENTRIFUGAL}
OnShaft(s) == B(s.c[17])
S0(c) == [ c |-> c, motor |-> c[16], check |-> B(c[3]), f |-> IF c[1] \in {LIQDISP, CENTRIFUGAL} THEN <<10000, 3000, 0, 10000, 3000, 0>> ELSE <<1000000, 3000, 0, 1000000, 3000, 0>>,
           block |-> <<FALSE, 0>>, full |-> <<FALSE, 0>>, part |-> <<FALSE, 0, 0>>, jam |-> <<FALSE, 0>>, over |-> <<FALSE, 0>>,
           cav |-> 0, el |-> 0, dur |-> 0, act |-> "", steps |-> 0, n |-> 0 ]
P(s, k) == s.f[3 * k + 1]
T(s, k) == s.f[3 * k + 2]

(* ---- cavitation: the fraction of the source lost grows and shrinks with the square root of its distance from the end *)
Auto(s, sat, port) == B(s.c[13]) /\ P(s, port) < sat
Cavitate(s, auto, cav, el) ==      \* <<fraction, elapsed, duration, amplitude>>
    LET full == s.full[1] \/ auto
        dur == IF s.full[1] THEN s.full[2] ELSE IF auto THEN s.c[14] ELSE IF s.part[1] THEN s.part[2] ELSE 0
        amp == IF s.full[1] THEN s.part[3] ELSE IF auto THEN s.c[15] ELSE IF s.part[1] THEN s.part[3] ELSE 0
    IN [ full |-> full, dur |-> dur, amp |-> amp, el |-> IF full \/ s.part[1] THEN el + DTMS ELSE 0, noisy |-> full \/ s.part[1] ]
Fraction(full, cav, dur) ==
    IF dur < 10 THEN (IF full THEN FULL ELSE 0)
    ELSE Clamp(0, IF full THEN cav + ((2 * DTMS * Root(Max(cav, 10000))) * 1000) \div dur ELSE cav - ((2 * DTMS * Root(FULL - Min(cav, 990000))) * 1000) \div dur, FULL)

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n] IN
    CASE n = "Fluids"   -> [s EXCEPT !.f = a]
      [] n = "Motor"    -> [s EXCEPT !.motor = a[1]]
      [] n = "Check"    -> [s EXCEPT !.check = B(a[1])]
      [] n = "Block"    -> [s EXCEPT !.block = <<B(a[1]), a[2]>>]
      [] n = "Full"     -> [s EXCEPT !.full = <<B(a[1]), a[2]>>]
      [] n = "Partial"  -> [s EXCEPT !.part = <<B(a[1]), a[2], a[3]>>]
      [] n = "Jam"      -> [s EXCEPT !.jam = <<B(a[1]), a[2]>>]
      [] n = "Override" -> [s EXCEPT !.over = <<B(a[1]), a[2]>>]
      [] n = "Restart"  -> s
      [] n = "Step"     -> [s EXCEPT !.steps = @ + 1, !.cav = 0, !.el = 0]
Obs(s) == [m |-> s.motor]

(* ---- what a step does *)
\* The torque that goes with a power at the motor's speed.
TorqueOK(o) == LET w == MD(o.torque, Abs(o.motor), 9549) IN Abs(o.motor) < 2 \/ Within(IF o.motor > 0 THEN -w ELSE w, o.power, 20 + Abs(o.motor) \div 9000 + Abs(o.power) \div 2000 + Abs(w) \div (2 * Abs(o.motor)))
SpeedOK(s, o) == Within(o.speed, IF o.motor < 0 THEN -MD(-o.motor, 100, s.c[2]) ELSE MD(o.motor, 100, s.c[2]), 1 + 100 \div s.c[2])
ShaftOK(s, o) ==
    LET b == o.before
        fr == -MD(s.c[19], Max(b.motor, s.c[20] * 10), 100)                 \* 1e-5 Nm: 1e-6 Nm/rpm * 0.1 rpm
        ld == b.load + fr
        dw == IF Abs(ld) > 100000 THEN MD(ld \div 100, 11937, s.c[18]) \div 1000 ELSE MD(ld, 11937, s.c[18]) \div 100000        \* 0.1 rpm: 1e-5 Nm * dt * 9.5493 / (1e-3 kgm2)
    IN IF s.over[1] THEN o.motor = s.over[2]
       ELSE Within(o.motor, Max(0, b.motor + dw), 2 + Abs(dw) \div 1000 + 12 \div s.c[18])
\* The volume flow of a displacement pump.
Volume(s, o) ==
    LET v == IF o.speed < 0 THEN -MD(-o.speed, s.c[4], 600) ELSE MD(o.speed, s.c[4], 600) IN IF s.check /\ v <= 0 THEN 0 ELSE v
DispOK(s, o) ==
    LET b == o.before
        raw == Volume(s, o)
        v == IF Kind(s) = LIQDISP THEN MD(raw, FULL - o.cav, 10000) \div 100 ELSE raw
        src == IF o.speed > 0 THEN 1 ELSE 2
        want == IF v < 0 THEN -MD(-v, o.d[src], 10000) ELSE MD(v, o.d[src], 10000)
        noise == IF Kind(s) = LIQDISP THEN LET c == Cavitate(s, Auto(s, o.sat[IF raw >= 0 THEN 1 ELSE 2], IF raw >= 0 THEN 0 ELSE 1), b.cav, b.el) IN IF c.noisy THEN c.amp ELSE 0 ELSE 0
        open == IF s.block[1] THEN 100 - s.block[2] ELSE 100
        flux == IF o.demand < 0 THEN -MD(MD(-o.demand, open, 100), 1000, b.mw) ELSE MD(MD(o.demand, open, 100), 1000, b.mw)
        tol(x) == 2 + Abs(x) \div 3000
    IN /\ Why("delivers by speed", IF noise = 0 THEN Within(o.demand, want, tol(want) + o.d[src] \div 5000 + s.c[4] \div 200) ELSE o.demand >= 0)
       /\ Why("flow by demand", Within(o.flux, flux, tol(flux)))
       /\ Why("source", Within(o.src, o.flux, 1))
       /\ Why("power", Within(o.power, MD(Abs(o.vol), Abs(o.drop), 10000), 10 + o.power \div 2000 + (Abs(o.drop) + Abs(o.vol)) \div 8000))
FanOK(s, o) ==
    LET b == o.before
        d == o.d[IF b.back THEN 2 ELSE 1]
        sp == Clamp(0, o.speed, 46000)
        ref == s.c[7] * 10
        A0 == MD(MD(MD(s.c[8], sp, ref), sp, ref), d, s.c[6])
        Qm == Max(1, MD(s.c[9], sp, ref))
        rest == IF Kind(s) = CENTRIFUGAL THEN FULL - o.cav ELSE FULL
        c == Cavitate(s, Kind(s) = CENTRIFUGAL /\ Auto(s, o.sat[1], 0), 0, 0)
        noise == IF Kind(s) = CENTRIFUGAL /\ c.noisy THEN c.amp ELSE 0
        Q == Clamp(0, o.Q, Qm)
        full == A0 - MD(MD(A0, Q, Qm), Q, Qm)                   \* the curve at the flow used
        P0 == MD(full, rest, 10000) \div 100
        curveTol == 4 + A0 \div 1000 + (3 * A0) \div Qm + (2 * A0) \div Max(1, sp)
        turning == sp > 100 /\ d > 0
        \* the system's constant, filtered
        pl == Clamp(0, b.P, A0)
        flow == Max(Qm \div 10000, b.vol)
        k == s.c[12]
        g == (o.G * 100 - b.G * (100 - k)) \div k          \* of the flow before the step
        open == IF s.block[1] THEN 100 - s.block[2] ELSE 100
        push == full + P(s, 0) - P(s, 1)
        cond == s.c[5] * open                       \* 1e-8 m2
        drive == o.P + P(s, 0) - P(s, 1)
        load == IF s.c[10] = 0 \/ sp < 2 THEN MD(Abs(o.vol), o.P, 10000)
                ELSE LET x == MD(Clamp(0, o.vol, Qm), 10000, Max(1, MD(s.c[10], sp, ref)))
                         y == o.pc[1] + MD(x, o.pc[2], 10000) + (IF o.pc[3] < 0 THEN -MD(MD(x, x, 10000), -o.pc[3], 10000) ELSE MD(MD(x, x, 10000), o.pc[3], 10000))
                                      + (IF o.pc[4] < 0 THEN -MD(MD(MD(x, x, 10000), x, 10000), -o.pc[4], 10000) ELSE MD(MD(MD(x, x, 10000), x, 10000), o.pc[4], 10000))
                     IN MD(MD(MD(MD(MD(o.pbep, sp, ref), sp, ref), sp, ref), o.d[1], s.c[6]), Max(0, y), 10000)
    IN /\ Why("no pressure at rest", (o.speed <= 0) => (o.P >= 0 /\ o.P <= noise))
       /\ Why("flow used within the curve", turning => (o.Q >= 0 /\ o.Q <= Qm + 1 + Qm \div 1000))
       /\ Why("pressure on the curve", turning /\ noise = 0 => Within(o.P, P0, curveTol))
       /\ Why("pressure with noise", turning => (o.P >= 0 /\ o.P <= P0 + noise + curveTol))
       /\ Why("meets the system", (turning /\ full > 500 /\ o.G < 2000000 /\ Q > 20) => Within(o.Q, MD(o.G, Root(100 * Min(full, 20000000)), 10000), 3 + Q \div 100 + (curveTol * Q) \div full + (A0 \div full) * 2))
       /\ Why("system's constant", (turning /\ pl > 1000 /\ b.G < 20000000 /\ o.G < 20000000) => Within(MD(Max(0, g), Root(100 * Min(pl, 20000000)), 10000), flow, 3 + flow \div 100 + 60 \div k))
       /\ Why("check valve and blockage", IF ~s.check \/ push > curveTol THEN Within(o.cond, cond, 1) ELSE IF push < -curveTol THEN o.cond = 0 ELSE TRUE)
       /\ Why("source", Within(o.src, MD(o.P, o.A, 10000), 5 + (o.P + o.A) \div 8000 + o.src \div 1000))
       /\ Why("flow", o.cond = 0 => o.flux = 0)
       /\ Why("flows with the drive", (o.flux > 0 => drive > -2) /\ (o.flux < 0 => drive < 2))
       /\ Why("power", (sp < 2 /\ OnShaft(s) /\ Abs(o.power) <= 20) \/ Within(o.power, load, 20 + load \div 300 + Abs(o.vol) \div 5000 + o.P \div 5000))
Lin(lo, hi, frac) == lo * 100 + (IF hi < lo THEN -MD(lo - hi, frac, 100) ELSE MD(hi - lo, frac, 100))     \* 1e-4 of what is in 0.01
TurbineOK(s, o) ==
    LET b == o.before
        c == s.c
        k == c[12]
        d == MD(b.drop \div 10, k, 10) + MD(b.tdrop \div 10, 100 - k, 10)
        drop == IF b.drop >= 0 /\ b.tdrop >= 0 THEN (b.drop \div 100) * k + (b.tdrop \div 100) * (100 - k) ELSE (b.drop * k) \div 100 + (b.tdrop * (100 - k)) \div 100
        src == IF b.back THEN 1 ELSE 0
        p == P(s, src)  t == T(s, src)
        low == c[28] * 10  high == c[29] * 10
        cs == Clamp(low, MD(Max(0, o.speed), c[6] * 10, Min(46340, t)), high)
        frac == MD(cs - low, 10000, high - low)
        pr == o.pr  x == pr - 10000
        maxF == MD(c[8], 10000 - frac, 100) + MD(c[9], frac, 100)       \* 1e-6 kg/s
        r1 == Lin(c[10], c[11], frac)  r2 == Lin(c[13], c[14], frac)
        num == MD(x, x, 10000) + MD(x, r1, 10000)
        den == MD(pr, pr, 10000) + r2
        corr == MD(maxF \div 10, num, Min(46340, den)) * 10
        flow == MD(MD(corr, p \div 100, c[7] * 100), 1000, Max(1, Root(((t * 1000) \div c[6]) * 100)))
        srcN == IF o.flow < 0 \/ o.flux < 0 THEN 1 ELSE 0
        csN == Clamp(low, MD(Max(0, o.speed), c[6] * 10, Min(46340, T(s, srcN))), high)
        fN == MD(csN - low, 10000, high - low)
        lo == Lin(c[24], c[25], fN)  hi == Lin(c[26], c[27], fN)
        e1 == Lin(c[22], c[23], fN)
        e == Clamp(0, Lin(c[15], c[21], fN) + (IF e1 < 0 THEN -MD(pr, -e1, 10000) ELSE MD(pr, e1, 10000)), 10000)
        open == IF s.block[1] THEN 100 - s.block[2] ELSE 100
    IN /\ Why("pressure drop filtered", Within(o.tdrop, drop, 120 + Abs(drop) \div 1000))
       /\ Why("pressure ratio", IF o.tdrop <= 0 THEN pr = 10000 ELSE IF p - o.tdrop < 200000 THEN pr > 20000 ELSE Within(pr, MD(10000, p \div 100, (p - o.tdrop) \div 100), 3 + pr \div 1000))
       /\ Why("flow by speed and pressures", IF o.tdrop <= 0 THEN o.pred = 0 ELSE IF pr > 40000 \/ x < 200 \/ den > 46340 THEN TRUE ELSE Within(o.pred, flow, 200 + flow \div 100 + (6 * flow) \div x))
       /\ Why("passes it", Abs(P(s, 0) - P(s, 1)) < 10000 \/ Within(Abs(o.flux), MD(MD(o.pred, open, 100), 1000, (o.mw[1] + o.mw[2]) \div 2), 3 + Abs(o.flux) \div 500))
       /\ Why("efficiency", IF pr > 99999 THEN o.eff = 0 ELSE IF pr < lo - 10 \/ pr > hi + 10 THEN o.eff = 0 ELSE IF pr > lo + 10 /\ pr < hi - 10 THEN Within(o.eff, e, 30) ELSE TRUE)
       /\ Why("power", IF o.motor <= 0 THEN o.power = 0 ELSE o.tdrop < 0 \/ Within(-o.power, MD(MD(Abs(o.vol), o.tdrop \div 10, 10000) * 10, o.eff, 10000), 30 + Abs(o.power) \div 300 + o.tdrop \div 1000))
CavOK(s, o) ==
    LET b == o.before
        raw == IF Disp(s) THEN Volume(s, o) ELSE 0
        port == IF raw >= 0 THEN 0 ELSE 1
        edge == B(s.c[13]) /\ Abs(P(s, port) - o.sat[port + 1]) <= 1
        c == Cavitate(s, Auto(s, o.sat[port + 1], port), b.cav, b.el)
        dur == IF c.full \/ s.part[1] THEN c.dur ELSE b.dur
        f == Fraction(c.full, b.cav, dur)
    IN edge \/ (Why("cavitating for", Within(o.el, c.el, 1)) /\ Why("fraction cavitated", Within(o.cav, f, 1500)))
Match(s, o) ==
    /\ Why("driven by", s.act \in {"Init", "Motor"} => o.motor = s.motor)
    /\ s.act = "Restart" => Why("at rest after a restart", o.speed = 0 /\ o.power = 0)
    /\ s.act = "Step" =>
        /\ Why("motor", IF OnShaft(s) THEN ShaftOK(s, o) ELSE o.motor = s.motor)
        /\ Why("impeller speed", SpeedOK(s, o))
        /\ (Disp(s) => DispOK(s, o))
        /\ (Fan(s) => FanOK(s, o))
        /\ (Kind(s) = TURBINE => TurbineOK(s, o))
        /\ (Liquid(s) => CavOK(s, o))
        /\ Why("torque", IF OnShaft(s) /\ Abs(o.motor) < 2 THEN TRUE ELSE IF o.motor <= 0 /\ ~(Disp(s) /\ o.motor < 0) THEN o.torque = 0 ELSE TorqueOK(o))
        /\ Why("mass flow", LET up == IF o.flux < 0 \/ o.flow < 0 THEN 2 ELSE 1 IN Within(o.flow, IF o.flux < 0 THEN -MD(-o.flux, o.mw[up], 1000) ELSE MD(o.flux, o.mw[up], 1000), 2 + o.mw[up] \div 1000 + Abs(o.flow) \div 5000)
                             /\ Within(Abs(o.vol), MD(Abs(o.flow), 10000, o.d[up]), 3 + 20000 \div o.d[up] + Abs(o.vol) \div 3000))
        /\ Why("what leaves and enters", o.out = (IF o.flow > 0 THEN <<o.flow, 0>> ELSE <<0, -o.flow>>) /\ o.in = (IF o.flow > 0 THEN <<0, o.flow>> ELSE <<-o.flow, 0>>))
        /\ Why("pressure drop", Within(o.drop, P(s, 0) - P(s, 1), 1))
        /\ (OnShaft(s) => Why("load of the shaft", Within(o.load, IF s.jam[1] THEN MD(o.torque, 100 - s.jam[2], 100) ELSE o.torque, 2)))
        /\ (OnShaft(s) => LET dh == o.h[2] - o.h[1]  w == IF (dh < 0) # (o.flow < 0) THEN -MD(Abs(o.flow), Abs(dh), 1000) ELSE MD(Abs(o.flow), Abs(dh), 1000)
                              tol == 20 + Abs(dh) \div 1500 + Abs(o.flow) \div 900 + Abs(w) \div 1000 IN
                          Why("power of the shaft", Kind(s) = FAN => ((Within(o.pin, w, tol) \/ Abs(o.pin) > 900000000) /\ o.pout = 0))
                          /\ Why("power of the shaft", Kind(s) = TURBINE => (o.pin = 0 /\ Within(o.pout, IF w < 0 THEN MD(-w, o.eff, 10000) ELSE -MD(w, o.eff, 10000), tol + Abs(w) \div 5000)))
                          /\ Why("excess power", Abs(o.pin) > 900000000 \/ Abs(o.pout) > 900000000 \/ Within(o.excess, o.pout - o.pin, 2)))
Absorb(s, o) == [s EXCEPT !.motor = o.motor, !.cav = IF Liquid(s) THEN o.cav ELSE 0, !.el = IF Liquid(s) THEN o.el ELSE 0]

Inv(s) == s.cav >= 0 /\ s.cav <= FULL /\ (s.block[1] => s.block[2] \in 0..100)
StepOK(s, in, t) == in[1] = "Step" => (t.f = s.f /\ t.check = s.check)

Configs == CfgSet
Inputs(s) ==
    LET st == <<"Step", <<1>>>>
        cmd(n, a) == <<<<n, a>>, st>>
        g == ~Liquid(s)
        fl(p0, p1) == cmd("Fluids", IF g THEN <<p0 * 1000000, 3000, 0, p1 * 1000000, 3100, 300>> ELSE <<p0 * 10000, 3000, 0, p1 * 10000, 3100, 0>>)
    IN IF s.steps >= MaxSteps THEN {}
       ELSE {<<st>>, <<<<"Step", <<40>>>>, st>>, fl(1, 2), fl(2, 1), cmd("Block", <<IF s.block[1] THEN 0 ELSE 1, 40>>), <<<<"Restart", <<>>>>, st>>}
            \cup (IF OnShaft(s) THEN {cmd("Jam", <<IF s.jam[1] THEN 0 ELSE 1, 30>>), cmd("Override", <<IF s.over[1] THEN 0 ELSE 1, 20000>>)}
                  ELSE {cmd("Motor", <<m>>) : m \in {-10000, 0, 15000, 30000} \ {s.motor}})
            \cup (IF Kind(s) # TURBINE THEN {cmd("Check", <<IF s.check THEN 0 ELSE 1>>)} ELSE {})
            \cup (IF Liquid(s) THEN {cmd("Full", <<IF s.full[1] THEN 0 ELSE 1, 2000>>), cmd("Partial", <<IF s.part[1] THEN 0 ELSE 1, 3000, 0>>),
                                     cmd("Fluids", <<20, 3000, 0, 10000, 3000, 0>>), cmd("Fluids", <<10000, 3000, 0, 20, 3000, 0>>)} ELSE {})
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0]
=============================================================================
