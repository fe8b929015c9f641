----------------------------- MODULE Accum -----------------------------
(* Accumulators (aspects/fluid/capacitor: GunnsFluidAccum with a spring, GunnsFluidAccumGas with a gas chamber): water behind a bellows,
   between a water node and a gas node (N2, CO2) whose pressures and fluids the environment imposes; steps of 1/8 s.

   Units: bellows position, scale 1e-4; volume 1e-7 m3; pressure Pa; water 1e-8 kmol, gas 1e-10 kmol; temperature 0.01 K; time ms.
   Every quantity is decided from those it depends on as observed, and from the state before (p): so nothing accumulates. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps

SPRING == 0  GASSY == 1
EMPTY == 0  LOW == 1  MIDDLE == 2  HIGH == 3  FULLY == 4
EQUALIZED == 0  FILLING == 1  DRAINING == 2
FULL == 10000
TMIN == 28000  TMAX == 35000

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
MD(x, y, d) == IF x < 0 THEN -(((-x) \div d) * y + ((((-x) % d) * y) \div d)) ELSE (x \div d) * y + (((x % d) * y) \div d)
Within(x, y, tol) == Abs(x - y) <= tol

(* cfg = <<1 kind, 2 volume, 3 least chamber %, 4 dead band %, 5 greatest conductivity (1e-8 kmol/kPa/s), 6 least scale, 7 greatest forced rate (1e-4/s), 8 hold time of edits,
           9..11 spring coefficients, 12 fill mode threshold, 13 one-way rate, 14 position, 15 greatest pressure, 16 initial pressure,
           17, 18 greatest and least conductivity of the gas (1e-10 kmol/kPa/s), 19 greatest forced pressure rate (Pa/s), 20 gas pressure,
           21 reactive edits, 22 temperature held, 23 pressure head, 24 heat, 25 CO2 (permille)>> *)
Gas(s) == s.c[1] = GASSY
VMin(c) == (c[2] * c[3]) \div 100
Range(c) == c[2] - VMin(c)
Total(c) == c[2] + VMin(c)
Dead(c) == (c[2] * c[4]) \div 100 - VMin(c)                                        \* width of the dead bands
PVol(c, v) == IF v >= c[2] THEN VMin(c) ELSE IF v <= VMin(c) THEN c[2] ELSE Total(c) - v
VolAt(c, pos) == Clamp(VMin(c), (pos * Range(c)) \div FULL + VMin(c), c[2])
Amount(vol, d) == vol * (d \div 10) + (vol * (d % 10)) \div 10                            \* vol * d, d in 0.01 kmol/m3 is 1e-1 of the unit
PosOf(c, v) == ((v - VMin(c)) * FULL) \div Range(c)
GasP(n, t, v) == MD(MD(n, 1000, v), (t * 8314) \div 10000, 10000)                          \* n R T / V
GasN(p, t, v) == MD(MD(p, 10000, (t * 8314) \div 10000), v, 1000)
SpringP(c, pos) == MD(MD(c[11], pos, FULL), pos, FULL) + MD(c[10], pos, FULL) + c[9]
Share(q, n, all) == LET k == all \div 40000 + 1 IN MD(q, n \div k, Max(1, all \div k))            \* q * n / all

X0(c) == LET v == VolAt(c, c[14])  pv == PVol(c, v)  n == GasN(c[20], 30000, pv) IN
         [pos |-> c[14], vol |-> v, pvol |-> pv, d |-> 5527, n |-> Amount(v, 5527), p |-> c[16], t |-> 30000, scale |-> FULL, A |-> 0, flux |-> 0,
          zone |-> MIDDLE, mode |-> EQUALIZED, spring |-> SpringP(c, c[14]), reading |-> c[16],
          gas |-> <<MD(n, 1000 - c[25], 1000), MD(n, c[25], 1000)>>, gp |-> IF c[1] = GASSY THEN c[20] ELSE 0, gt |-> 30000, gA |-> 0, gflux |-> 0,
          edB |-> FALSE, timB |-> 0, edT |-> FALSE, oride |-> FALSE, simul |-> FALSE, stuck |-> FALSE, edP |-> FALSE, timP |-> 0, setP |-> FALSE, setB |-> FALSE, holdP |-> c[20]]
S0(c) == [ c |-> c, x |-> X0(c), p |-> X0(c),
           stick |-> FALSE, stickTo |-> <<FALSE, 0, c[7]>>, ed |-> <<0, c[7]>>, edT |-> 0, edP |-> <<0, c[19]>>, rup |-> <<FALSE, 0, c[7], 0, c[19]>>, hold |-> FALSE,
           node |-> <<c[16], 30000, c[20], 30000, c[25]>>, old |-> c[16], was |-> c[16], act |-> "", n |-> 0, steps |-> 0 ]

(* ---- the liquid's conductivity: x is the state before the step, node the pressures before it *)
Zones(c, v) == LET M == VMin(c)  D == Dead(c)  z(u) == IF u <= M THEN EMPTY ELSE IF u >= c[2] THEN FULLY ELSE IF u < M + D THEN LOW ELSE IF u > c[2] - D THEN HIGH ELSE MIDDLE
               IN {z(u) : u \in (v - 1)..(v + 1)}
Zone(c, v) == LET M == VMin(c)  D == Dead(c) IN IF v <= M THEN EMPTY ELSE IF v >= c[2] THEN FULLY ELSE IF v < M + D THEN LOW ELSE IF v > c[2] - D THEN HIGH ELSE MIDDLE
Modes(c, out, in) == {IF out - in + e > c[12] THEN FILLING ELSE IF in - out - e > c[12] THEN DRAINING ELSE EQUALIZED : e \in -2..2}
Mode(c, out, in) == IF out - in > c[12] THEN FILLING ELSE IF in - out > c[12] THEN DRAINING ELSE EQUALIZED
Taper(c, v) == Clamp(0, ((v - VMin(c)) * FULL) \div Dead(c), FULL)
Scale(s, x, zone, mode) ==
    LET c == s.c IN
    IF x.stuck THEN 0
    ELSE IF zone = MIDDLE \/ x.oride \/ x.edB THEN FULL
    ELSE IF c[12] > 0 /\ mode # EQUALIZED
         THEN IF mode = FILLING /\ zone = FULLY THEN 0 ELSE IF mode = DRAINING /\ zone = EMPTY THEN 0
              ELSE IF mode = FILLING /\ zone = HIGH THEN Taper(c, x.pvol) ELSE IF mode = DRAINING /\ zone = LOW THEN Taper(c, x.vol)
              ELSE Min(FULL, x.scale + Min(c[13], 8 * FULL) \div 8)
    ELSE IF zone = LOW THEN Taper(c, x.vol) ELSE IF zone = HIGH THEN Taper(c, x.pvol)
    ELSE IF (zone = EMPTY /\ mode = FILLING) \/ (zone = FULLY /\ mode = DRAINING) THEN c[6] ELSE 0
BIG == 100000000
SpringCap(c, x, pos) == LET q == (2 * pos * (c[11] \div 100)) \div 100 + c[10] + (IF c[23] = 0 THEN 0 ELSE IF pos <= 0 THEN BIG ELSE (c[23] * FULL) \div pos)
                        IN IF q <= 0 THEN 0 ELSE IF q < 1000 THEN BIG ELSE IF q > 100000 THEN Amount(Range(c), x.d) \div (q \div 1000) ELSE MD(Amount(Range(c), x.d), 1000, q)
Cap(s, x, pos) ==
    LET c == s.c  sp == SpringCap(c, x, pos)  g == IF x.gp < 1000 THEN BIG ELSE MD(Amount(x.pvol, x.d), 1000, x.gp) IN
    IF ~Gas(s) THEN sp ELSE IF c[9] > 0 \/ c[10] > 0 \/ c[11] > 0 THEN Min(g, sp) ELSE g
Conduct(s, x, pos) == Min(Cap(s, x, pos) * 8, s.c[5])
GasConduct(s, x) == LET k == MD(x.pvol, 100000000 \div x.gt, 8314) * 8 IN IF s.c[17] >= s.c[18] THEN Clamp(s.c[18], k, s.c[17]) ELSE Clamp(0, k, s.c[17])
Flux(A, out, in) == LET dp == out - in IN MD(dp, A, 1000)

(* ---- forced values *)
Ramp(x, to, step) == IF to > x THEN Min(x + step, to) ELSE Max(x - step, to)
Rate(s, r) == Clamp(0, r, s.c[7]) \div 8
(* what the liquid chamber does in a step *)
Way(s, x) == IF x.oride THEN IF s.rup[1] THEN "rupture" ELSE "held"
             ELSE IF s.stick THEN "stick" ELSE IF s.stickTo[1] THEN "stickTo" ELSE IF x.edB THEN "edit" ELSE IF s.hold THEN "hold" ELSE "flow"
Target(s, x, way) == CASE way = "rupture" -> s.rup[2] [] way = "stickTo" -> s.stickTo[2] [] way = "edit" -> s.ed[1] [] OTHER -> x.pos
Speed(s, way) == Rate(s, CASE way = "rupture" -> s.rup[3] [] way = "stickTo" -> s.stickTo[3] [] way = "edit" -> s.ed[2] [] OTHER -> 0)
Forced(way) == way \in {"rupture", "held", "stickTo", "edit"}
Warms(s, x, way) == CASE way \in {"rupture", "stickTo", "flow"} -> TRUE [] way = "edit" -> s.c[21] = 1 /\ ~x.simul [] OTHER -> FALSE
Cancels(way) == way \in {"rupture", "stick", "stickTo"}                \* edits are cancelled
(* temperature of n units at t after the flow q for one step *)
Heated(s, n0, n, t, q, tin) == IF B(s.c[22]) THEN Clamp(TMIN, t, TMAX)
    ELSE Clamp(TMIN, t + (IF q > 0 THEN Share(tin - t, q \div 8, n) ELSE 0) + (s.c[24] * 16560) \div Max(1, n), TMAX)
EditedT(s) == Clamp(TMIN, s.edT, TMAX)

(* what the gas chamber does: bellows edit e and pressure edit f as they stand after the liquid's part *)
GasWay(s, x, e, f, setB) ==
    LET simul == IF s.rup[1] THEN x.simul ELSE IF f /\ e THEN TRUE ELSE IF ~f /\ ~e THEN FALSE ELSE x.simul IN
    IF s.rup[1] THEN IF x.setP /\ setB THEN "flow" ELSE "rupture"
    ELSE IF f THEN "edit" ELSE IF simul \/ (e /\ s.c[21] = 0) THEN "held" ELSE "flow"
GasTarget(s, x, way) == Clamp(0, CASE way = "rupture" -> s.rup[4] [] way = "edit" -> s.edP[1] [] OTHER -> x.holdP, s.c[15])
GasSpeed(s, way) == Clamp(0, CASE way = "rupture" -> s.rup[5] [] way = "edit" -> s.edP[2] [] OTHER -> s.c[19], s.c[19]) \div 8
GasWarms(s, simul, way) == way = "rupture" \/ (way = "edit" /\ s.c[21] = 1 /\ ~simul)

(* ---- the flags after a step. b, q: the forced position and pressure have been reached *)
Flags(s, x, b, q) ==
    LET way == Way(s, x)
        cancel == Cancels(way)
        e0 == x.edB /\ ~cancel
        tB0 == IF cancel THEN 0 ELSE IF way \in {"flow", "hold"} THEN 0 ELSE x.timB
        editing == way = "edit"
        expired == tB0 >= s.c[8]
        tB == IF editing /\ b /\ ~expired THEN tB0 + 125 ELSE tB0
        e == e0 /\ ~(editing /\ b /\ expired)
        f0 == x.edP /\ ~cancel
        tP0 == IF cancel THEN 0 ELSE x.timP
        sim0 == x.simul /\ ~cancel
        setB == x.setB \/ (x.oride /\ (way = "held" \/ b))
        gw == GasWay(s, [x EXCEPT !.simul = sim0], e, f0, setB)
        simul == IF s.rup[1] THEN sim0 ELSE IF f0 /\ e THEN TRUE ELSE IF ~f0 /\ ~e THEN FALSE ELSE sim0
        doneP == gw = "edit" /\ q /\ tP0 >= s.c[8]
    IN [edB |-> e, timB |-> tB, edT |-> FALSE, stuck |-> way = "stick" \/ (way = "stickTo" /\ b),
        simul |-> IF ~Gas(s) THEN FALSE ELSE simul, gw |-> gw,
        edP |-> f0 /\ ~doneP, timP |-> IF s.rup[1] THEN tP0 ELSE IF gw = "edit" THEN (IF q /\ tP0 < s.c[8] THEN tP0 + 125 ELSE tP0) ELSE 0,
        oride |-> Gas(s) /\ (s.rup[1] \/ (f0 /\ ~e /\ (s.c[21] = 0 \/ simul))),
        setB |-> IF ~Gas(s) THEN FALSE ELSE s.rup[1] /\ setB,
        setP |-> s.rup[1] /\ (x.setP \/ (gw = "rupture" /\ q))]

(* ---- the step, every quantity from the exact ones before it *)
Step(s, pl, pg) ==
    LET c == s.c  x == s.x
        zone == Zone(c, x.vol)  mode == Mode(c, s.old, x.p)
        scale == Scale(s, x, zone, mode)
        A == MD(Conduct(s, x, x.pos), scale, FULL)
        flux == Flux(A, pl, x.p)
        way == Way(s, x)
        n1 == IF x.edT THEN Amount(x.vol, x.d) ELSE x.n
        t1 == IF x.edT THEN EditedT(s) ELSE x.t
        to == Clamp(0, Target(s, x, way), FULL)
        pos1 == Ramp(x.pos, to, Speed(s, way))
        n == CASE way = "flow" -> n1 + flux \div 8 [] Forced(way) -> Amount(VolAt(c, pos1), x.d) [] OTHER -> n1
        vol == CASE Forced(way) -> VolAt(c, pos1) [] way = "flow" -> Clamp(VMin(c), MD(n, 10, x.d), c[2]) [] OTHER -> x.vol
        pos == CASE Forced(way) -> pos1 [] way = "flow" -> PosOf(c, vol) [] OTHER -> x.pos
        t == IF Warms(s, x, way) THEN Heated(s, n1, IF way = "flow" THEN n ELSE n + flux \div 8, t1, flux, s.node[2]) ELSE t1
        pvol == PVol(c, vol)
        gA == IF Gas(s) THEN GasConduct(s, x) ELSE 0
        gflux == IF Gas(s) THEN Flux(gA, pg, x.gp) ELSE 0
        f0 == Flags(s, x, pos = to, FALSE)
        gto == GasTarget(s, x, f0.gw)
        f1 == Ramp(x.p, gto, GasSpeed(s, f0.gw))
        f == Flags(s, x, pos = to, f1 = gto)
        spring == SpringP(c, pos)
        all == x.gas[1] + x.gas[2]
        out(i) == IF gflux < 0 THEN Max(-x.gas[i], Share(gflux \div 8, x.gas[i], all)) ELSE MD(gflux \div 8, IF i = 2 THEN s.node[5] ELSE 1000 - s.node[5], 1000)
        gn == IF f.gw = "flow" THEN (IF s.hold THEN x.gas ELSE <<x.gas[1] + out(1), x.gas[2] + out(2)>>)
              ELSE LET m == GasN(Max(0, f1 - x.spring - c[23]), x.gt, pvol) IN <<Share(m, x.gas[1], all), Share(m, x.gas[2], all)>>
        gp == IF ~Gas(s) THEN 0 ELSE IF f.gw = "flow" THEN (IF s.hold THEN x.gp ELSE Clamp(0, GasP(gn[1] + gn[2], x.gt, pvol), c[15])) ELSE f1 - x.spring - c[23]
        y == [x EXCEPT !.zone = zone, !.mode = mode, !.scale = scale, !.A = A, !.flux = flux, !.n = n, !.vol = vol, !.pos = pos, !.t = t, !.pvol = pvol, !.gA = gA, !.gflux = gflux,
                       !.gas = gn, !.gp = gp, !.spring = spring, !.p = Clamp(0, spring + c[23] + gp, c[15]), !.reading = pl,
                       !.edB = f.edB, !.timB = f.timB, !.edT = FALSE, !.stuck = f.stuck, !.simul = f.simul, !.edP = f.edP, !.timP = f.timP, !.oride = f.oride, !.setB = f.setB, !.setP = f.setP,
                       !.holdP = IF s.rup[1] \/ f.gw = "held" THEN x.holdP ELSE IF x.edP /\ ~f.edP THEN gto ELSE x.p]
    IN [s EXCEPT !.p = x, !.x = y, !.was = s.old, !.old = pl, !.node = <<pl, s.node[2], pg, s.node[4], s.node[5]>>]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n, !.p = s0.x] IN
    CASE n = "Fluids"  -> [s EXCEPT !.node = <<@[1], a[3], @[3], a[1], a[2]>>]
      [] n = "Stick"   -> [s EXCEPT !.stick = B(a[1])]
      [] n = "StickTo" -> [s EXCEPT !.stickTo = <<B(a[1]), a[2], a[3]>>]
      [] n = "Edit"    -> [s EXCEPT !.x.edB = B(a[1]), !.ed = <<a[2], a[3]>>]
      [] n = "EditT"   -> [s EXCEPT !.x.edT = TRUE, !.edT = a[1]]
      [] n = "EditP"   -> [s EXCEPT !.x.edP = B(a[1]), !.edP = <<a[2], a[3]>>]
      [] n = "Rupture" -> [s EXCEPT !.rup = <<B(a[1]), a[2], a[3], a[4], a[5]>>]
      [] n = "Dry"     -> s
      [] n = "Hold"    -> [s EXCEPT !.hold = B(a[1])]
      [] n = "Restart" -> [s EXCEPT !.x.zone = MIDDLE, !.x.mode = EQUALIZED]
      [] n = "Step"    -> Step([s EXCEPT !.steps = @ + 1], a[1], a[2])

(* ---- the code's step o after state x = s.p *)
Obs(s) == s.x
Same(x, o) == /\ o.pos = x.pos /\ o.vol = x.vol /\ o.n = x.n /\ o.p = x.p /\ o.t = x.t
Reached(x, o, to, step, at) == (Abs(to - x) < step - 2 => at) /\ (Abs(to - x) > step + 2 => ~at)
Match(s, o) ==
    IF s.act # "Step" THEN s.n = 0 \/ Why("nothing moves between steps", Same(s.x, o)) ELSE
    LET c == s.c  x == s.p  pl == s.node[1]  pg == s.node[3]
        way == Way(s, x)
        to == Clamp(0, Target(s, x, way), FULL)
        sp == Speed(s, way)
        b == CASE way = "edit" -> o.atEdit [] way = "stickTo" -> o.atStick [] way = "rupture" /\ ~x.setB -> o.setB [] OTHER -> o.pos = to
        kLo == IF x.pos <= 1 /\ c[23] > 0 THEN 0 ELSE Min(Conduct(s, x, x.pos - 1), Conduct(s, x, x.pos + 1))
        kHi == Max(Conduct(s, x, x.pos - 1), Conduct(s, x, x.pos + 1))
        n1 == IF x.edT THEN 0 ELSE x.n
        t1 == IF x.edT THEN EditedT(s) ELSE x.t
        fine == 2 + Abs(o.flux) \div 100000
    IN
    /\ Why("zone", o.zone \in Zones(c, x.vol))
    /\ Why("fill mode", o.mode \in Modes(c, s.was, x.p))
    /\ Why("scale", Within(o.scale, Scale(s, x, o.zone, o.mode), 2 + FULL \div Dead(c)))
    /\ Why("conductance", o.A >= MD(kLo, o.scale - 1, FULL) - 2 - c[5] \div 2000 - (kLo \div 500) /\ o.A <= MD(kHi, o.scale + 1, FULL) + 2 + c[5] \div 2000 + kHi \div 500)
    /\ Why("source pressure", Within(o.src, MD(x.p, o.A, 1000), 2 + o.A \div 1000 + x.p \div 1000 + o.src \div 100000))
    /\ Why("flux", Within(o.flux, Flux(o.A, pl, x.p), 2 + o.A \div 1000 + Abs(pl - x.p) \div 1000 + fine))
    /\ Why("what leaves the node", Within(o.out, Max(0, o.flux), fine) /\ Within(o.in, Max(0, -o.flux), fine))
    /\ Why("mass follows the flow", (way = "flow" /\ ~x.edT) => Within(o.n, x.n + o.flux \div 8, 2 + o.n \div 20000000 + fine))
    /\ Why("mass kept", (way \in {"hold", "stick"} /\ ~x.edT) => o.n = x.n)
    /\ Why("chamber kept", way \in {"hold", "stick"} => o.vol = x.vol /\ o.pos = x.pos)
    /\ Why("mass fills the chamber", (Forced(way) \/ x.edT) => IF x.edT THEN Within(o.n, Amount(o.vol, o.d), o.n \div 200 + 600 + (Abs(o.t - t1) * 4) * (o.n \div 100000 + 1))
                                                                      ELSE Within(o.n, Amount(o.vol, x.d), o.n \div 5000 + 600))
    /\ Why("volume is the mass's", way = "flow" => Within(o.vol, Clamp(VMin(c), MD(o.n, 10, o.d), c[2]), 2 + o.vol \div 2500))
    /\ Why("position is the volume's", Within(o.pos, PosOf(c, o.vol), 2 + FULL \div Range(c)))
    /\ Why("pressurizer has the rest", Within(o.pvol, PVol(c, o.vol), 1) /\ o.pvol >= VMin(c) /\ o.pvol <= c[2])
    /\ Why("usable mass", Within(o.use, Share(o.n, o.vol - VMin(c), o.vol), 3 + o.n \div 1000 + (o.n \div o.vol) * 2))
    /\ Why("forced position", Forced(way) => Within(o.pos, Ramp(x.pos, to, sp), 2))
    /\ Why("reached", (way \in {"edit", "stickTo"} \/ (way = "rupture" /\ ~x.setB)) => Reached(x.pos, o.pos, to, sp, b))
    /\ Why("temperature", Within(o.t, IF Warms(s, x, way) THEN Heated(s, x.n, IF way = "flow" THEN o.n ELSE o.n + o.flux \div 8, t1, o.flux, s.node[2]) ELSE t1, 3 + (IF Warms(s, x, way) THEN Abs(o.t - t1) \div 50 + (IF o.flux > 0 THEN Abs(s.node[2] - t1) \div 100 ELSE 0) ELSE 0)))
    /\ Why("density", o.d > 5300 /\ o.d < 5650)
    /\ Why("spring", Within(o.spring, SpringP(c, o.pos), 3 + ((Abs(c[10]) + 2 * Abs(c[11])) \div FULL) * 2 + Abs(c[11]) \div 5000))
    /\ Why("pressure", Within(o.p, Clamp(0, o.spring + c[23] + (IF Gas(s) THEN o.gp ELSE 0), c[15]), 2))
    /\ Why("reading", o.reading = pl)
    /\ LET gx == x.gas[1] + x.gas[2]  go == IF Gas(s) THEN o.gas[1] + o.gas[2] ELSE 0
           f0 == Flags(s, x, b, FALSE)
           gto == GasTarget(s, x, f0.gw)
           gsp == GasSpeed(s, f0.gw)
           forced == x.p - x.spring - c[23]         \* the gas pressure that makes the liquid's
           want == Ramp(x.p, gto, gsp)
           q == Gas(s) /\ f0.gw # "flow" /\ Within(o.gp + x.spring + c[23], gto, 2)
           fs == {f \in {Flags(s, x, b, q), Flags(s, x, b, FALSE)} : q \/ f = Flags(s, x, b, FALSE)}
           flag(f) == /\ o.edB = f.edB /\ o.timB = f.timB /\ o.stuck = f.stuck /\ o.edT = FALSE /\ o.oride = f.oride /\ o.simul = f.simul
                      /\ Gas(s) => (o.edP = f.edP /\ o.timP = f.timP /\ o.setB = f.setB /\ o.setP = f.setP)
       IN /\ Why("flags and timers", IF Abs(Abs(gto - x.p) - gsp) <= 3 THEN \E f \in fs : flag(f) ELSE flag(Flags(s, x, b, q)))
          /\ Gas(s) =>
             /\ Why("gas conductance", Within(o.gA, GasConduct(s, x), 3 + o.gA \div 300))
             /\ Why("gas source", Within(o.gsrc, MD(x.gp \div 10, o.gA, 1000), 2 + o.gA \div 1000 + x.gp \div 10000 + o.gsrc \div 100000))
             /\ Why("gas flux", Within(o.gflux, Flux(o.gA, pg, x.gp), 2 + o.gA \div 1000 + Abs(pg - x.gp) \div 1000 + Abs(o.gflux) \div 100000))
             /\ \A i \in 1..2 : LET part == IF o.gflux < 0 THEN Share(Abs(o.gflux), x.gas[i], gx) ELSE MD(o.gflux, IF i = 2 THEN s.node[5] ELSE 1000 - s.node[5], 1000)
                                    tol == 3 + Abs(o.gflux) \div 5000 IN
                   /\ Why(<<"what leaves the gas node", i>>, Within(o.gout[i], IF o.gflux > 0 THEN part ELSE 0, tol) /\ Within(o.gin[i], IF o.gflux < 0 THEN part ELSE 0, tol))
                   /\ Why(<<"gas follows the flow", i>>, (f0.gw = "flow" /\ ~s.hold /\ ~x.edT) => Within(o.gas[i], x.gas[i] + (o.gout[i] - o.gin[i]) \div 8, tol + 2 + o.gas[i] \div 1000000))
                   /\ Why(<<"gas keeps its mixture", i>>, (f0.gw # "flow") => Within(Share(10000, o.gas[i], go), Share(10000, x.gas[i], gx), 4 + 20000 \div Max(1, go) + 20000 \div Max(1, gx)))
             /\ Why("gas kept", (f0.gw = "flow" /\ s.hold /\ ~x.edT) => (o.gas = x.gas /\ o.gp = x.gp /\ o.gt = x.gt))
             /\ Why("gas fills its chamber", f0.gw # "flow" => Within(go, GasN(o.gp, IF x.edT THEN EditedT(s) ELSE x.gt, o.pvol), 50 + go \div 400 + 2 * (go \div o.pvol + 1) + (go \div Max(1, o.gp)) * 2))
             /\ Why("gas pressure", (f0.gw = "flow" /\ ~s.hold) => Within(o.gp, Clamp(0, GasP(go, o.gt, o.pvol), c[15]), 4 + o.gp \div 400 + 2 * (o.gp \div o.pvol + 1)))
             /\ Why("forced pressure", f0.gw # "flow" => Within(o.gp, want - x.spring - c[23], 4))
             /\ LET warms == f0.gw = "flow" \/ GasWarms(s, f0.simul, f0.gw)
                    g1 == IF x.edT THEN EditedT(s) ELSE x.gt
                    mix == Share(1000, Max(0, o.gflux) \div 8, go) IN       \* permille of the gas that is new
                Why("gas temperature", (f0.gw = "flow" /\ s.hold) \/
                    IF ~warms \/ B(c[22]) THEN Within(o.gt, g1, 2)
                    ELSE LET w == IF f0.gw = "flow" THEN g1 + MD((mix * (372 * s.node[5] + 291 * (1000 - s.node[5]))) \div 100000, s.node[4] - g1,
                                       Max(1, (mix * (372 * s.node[5] + 291 * (1000 - s.node[5])) + (1000 - mix) * (Share(372000, x.gas[2], gx) + Share(291000, x.gas[1], gx))) \div 100000)) ELSE 0
                         IN IF f0.gw = "flow" THEN Within(o.gt, Clamp(TMIN, w, TMAX), 10 + Abs(s.node[4] - g1) \div 15) ELSE TRUE)
             /\ Why("held pressure", o.holdP = IF s.rup[1] \/ f0.gw = "held" THEN x.holdP ELSE IF f0.gw = "edit" /\ ~o.edP THEN gto ELSE IF f0.gw = "edit" THEN x.p ELSE x.p)
Absorb(s, o) ==
    IF s.n = 0 \/ s.act = "Step" THEN [s EXCEPT !.x = [k \in DOMAIN s.x |-> IF k \in DOMAIN o THEN o[k] ELSE s.x[k]]] ELSE s

(* ---- what an accumulator promises *)
Inv(s) == /\ s.x.pos >= 0 /\ s.x.pos <= FULL /\ s.x.vol >= VMin(s.c) - 1 /\ s.x.vol <= s.c[2] + 1 /\ s.x.scale >= 0 /\ s.x.scale <= FULL
          /\ s.x.A >= 0 /\ s.x.A <= s.c[5] /\ s.x.p >= 0 /\ s.x.p <= s.c[15] /\ s.x.t >= TMIN /\ s.x.t <= TMAX
          /\ s.x.gt >= TMIN /\ s.x.gt <= TMAX
StepOK(s, in, t) == t.act # "Step" \/
    LET x == t.p  y == t.x IN
    /\ (t.stick /\ ~x.oride) => y.pos = x.pos                                                                           \* a stuck bellows does not move
    /\ (x.stuck) => y.flux = 0                                                                                          \* and passes nothing
    /\ (x.zone = EMPTY /\ y.zone = EMPTY /\ ~x.oride /\ ~x.edB /\ y.mode # FILLING) => y.flux >= -(y.A \div 10) \/ y.A = 0
    /\ (x.vol = VMin(t.c) /\ t.was < x.p /\ t.c[12] > 0 /\ y.mode = DRAINING /\ ~x.oride /\ ~x.edB) => y.flux = 0            \* an empty one gives nothing
    /\ (x.vol = t.c[2] /\ t.c[12] > 0 /\ y.mode = FILLING /\ ~x.oride /\ ~x.edB) => y.flux = 0                               \* a full one takes nothing
    /\ (Way(t, x) = "flow" /\ ~x.edT) => Within(8 * (y.n - x.n), y.flux, 8)                                                  \* no water made or lost
    /\ Abs(y.pos - x.pos) <= Max(t.c[7] \div 8, IF Way(t, x) = "flow" THEN FULL ELSE 0) + 1                                  \* forced no faster than the limit

Configs == CfgSet
Inputs(s) ==
    LET c == s.c  p == c[20]
        st(d) == <<"Step", <<Max(1000, s.x.p + d), p>>>>
        st2(d) == <<"Step", <<Max(1000, s.x.p), Max(1000, s.x.gp + d)>>>>
        on(e) == {<<e, st(20000)>>, <<e, st(-20000)>>} IN
    IF s.steps >= MaxSteps THEN {}
    ELSE {<<st(d)>> : d \in {-100000, -3000, 0, 3000, 100000}}
         \cup UNION {on(e) : e \in {<<"Stick", <<f>>>> : f \in 0..1} \cup {<<"StickTo", <<f, 6000, 4000>>>> : f \in 0..1} \cup {<<"Edit", <<1, 4800, 1600>>>>, <<"EditT", <<31000>>>>, <<"Hold", <<1>>>>, <<"Restart", <<>>>>}}
         \cup (IF Gas(s) THEN {<<st2(d)>> : d \in {-50000, 50000}} \cup {<<<<"EditP", <<1, p + 10000, 80000>>>>, st(0)>>, <<<<"Rupture", <<1, 5100, 800, p, 80000>>>>, st(0)>>, <<<<"Rupture", <<0, 0, 0, 0, 0>>>>, st(0)>>,
                                    <<<<"EditP", <<1, p + 10000, 80000>>>>, <<"Edit", <<1, 4800, 1600>>>>, st(0)>>} ELSE {})
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0, !.p = s.x]
=============================================================================
