----------------------------- MODULE Valves -----------------------------
(* The valves of the fluid aspect (aspects/fluid/conductor: GunnsFluidValve, GunnsFluidCheckValve, GunnsFluid3WayValve,
   GunnsFluid3WayCheckValve, GunnsFluidReliefValve, GunnsFluidRegulatorValve, GunnsFluidBalancedPrv), one at a time, between nodes of
   nitrogen at 300 K whose pressures the environment imposes; steps of 1/8 s.

   Units: pressure 1/8 kPa (control pressure 1/64 kPa), position 1e-6, conductivity 1e-9 m2, flow 1e-6 kg/s, mass 1e-6 kg.
   Where rounding leaves open which way a valve turns, `cand` holds every allowed outcome and the observed one is taken over (Absorb). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps

VALVE == 0  CHECK == 1  WAY3 == 2  CHECK3 == 3  RELIEF == 4  REGULATOR == 5  PRV == 6
CLOSED == 0  OPENING == 1  TRANSIT == 2  CLOSING == 3  OPEN == 4
FULL == 1000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
MD(x, y, d) == (x \div d) * y + (((x % d) * y) \div d)
Mil(x, d) == ((x * 1000) \div d) * 1000 + ((((x * 1000) % d) * 1000) \div d)         \* x / d in 1e-6
Within(x, y, tol) == Abs(x - y) <= tol
Root(x) == LET RECURSIVE G(_, _) G(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN G(m, hi) ELSE G(lo, m) IN G(0, 46340)

(* cfg = <<1 kind, 2..5 p0..p3, 6 g0, 7 g1, 8 position (0.001), 9 rate %/s, 10 a, 11 b, 12 c, 13 pop position %, 14 pop slope (1/4), 15 inlet coefficient 0,
           16 inlet coefficient 1 (1/8), 17 set point bias, 18 position is path B's, 19 non-mixing band %>>
   check valve: a = closed at, b = open at; three-way check valve: a, b = opening pressure of path A, B, c = least difference;
   relief valve: a = reseat, b = crack, c = full open; regulator: the same; balanced PRV: a = droop (kPa s/kg), b = set point *)
Kind(s) == s.c[1]
Paths(s) == CASE Kind(s) \in {WAY3, CHECK3} -> <<<<1, 3>>, <<2, 3>>>> [] Kind(s) = PRV -> <<>> [] OTHER -> <<<<1, 2>>>>
S0(c) == [ c |-> c, p0 |-> <<0, 0, 0, 0>>, p |-> <<c[2], c[3], c[4], c[5]>>, pos0 |-> 0, pos |-> c[8] * 1000,
           st |-> IF c[1] \notin {RELIEF, REGULATOR} \/ c[8] = 0 THEN CLOSED ELSE IF c[8] = 1000 THEN OPEN ELSE OPENING, cand |-> {}, prev |-> 0, drop |-> <<0, 0>>,
           g |-> <<c[6], c[7]>>, stuck |-> FALSE, fail |-> <<FALSE, 0>>, leak |-> <<FALSE, 0>>, lprev |-> 0, lk |-> 0, bias |-> <<FALSE, 0>>, set |-> IF c[1] = PRV THEN c[11] ELSE c[17],
           block |-> <<<<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>>>>, tune |-> -1, tuned |-> FALSE, k |-> <<0, 0>>, flow |-> <<0, 0>>, buf |-> 0, buf0 |-> 0, cut |-> FALSE, act |-> "", n |-> 0, steps |-> 0 ]

(* ---- flow through a conductivity: mdot = k sqrt(rho dP), made linear at the pressures before the step *)
Lin(p, x) == Max(4, Abs(p[x[1]] - p[x[2]]))
Root40(p, x) == LET q == (((p[x[1]] + p[x[2]]) * 1404) \div 200) * Lin(p, x) IN IF q < 1300000 THEN Root(1600 * q) ELSE 10 * Root(16 * q)         \* 40 sqrt(rho dP)
Flow(k, old, new, x) == LET d == new[x[1]] - new[x[2]]  m == MD(MD(MD(k, Root40(old, x), 1000), 559, 20000), Abs(d), Lin(old, x)) \div 10 IN IF d < 0 THEN -m ELSE m
Conductivity(m, p, x) == IF p[x[1]] = p[x[2]] THEN 0 ELSE MD(m, 357782, Root40(p, x))

(* ---- relief valves and regulators: positions along the two lines of the hysteresis, in the pressure that opens them *)
Control(s) == ((s.p[3] - s.p[4]) + (IF s.bias[1] THEN s.bias[2] ELSE 0) - s.set - s.c[15]) * 8 - s.c[16] * s.p[1]
Way(s, x) == IF Kind(s) = REGULATOR THEN -x ELSE x
Reseat(s) == Way(s, s.c[10] * 8)
Crack(s) == Way(s, s.c[11] * 8)
FullOpen(s) == Way(s, s.c[12] * 8)
Line(s, lo, x) ==
    LET F == FullOpen(s)  D == F - lo  pp == s.c[13]  sc == s.c[14] IN
    IF x <= lo THEN 0 ELSE IF x >= F THEN FULL
    ELSE IF (x - lo) * sc * 100 <= 4 * pp * D THEN Mil((x - lo) * sc, 4 * D)
    ELSE FULL - MD(Mil(F - x, D), (100 - pp) * sc, 4 * (25 * sc - pp))
PressureAt(s, lo, pos) ==
    LET F == FullOpen(s)  D == F - lo  pp == s.c[13]  sc == s.c[14] IN
    IF pos <= pp * 10000 THEN lo * 1000 + MD(pos, 4 * D, sc * 1000)
    ELSE F * 1000 - MD(MD(FULL - pos, 4 * (25 * sc - pp), (100 - pp) * sc), D, 1000)
Turned(s, x) ==         \* the states a valve may be in at pressure x
    LET F == FullOpen(s)
        t == CASE s.st = OPEN    -> IF x < F THEN CLOSING ELSE OPEN
               [] s.st = CLOSED  -> IF x > Crack(s) THEN OPENING ELSE CLOSED
               [] s.st = OPENING -> IF x > F THEN OPEN ELSE IF x < s.prev THEN TRANSIT ELSE OPENING
               [] s.st = CLOSING -> IF x < Reseat(s) THEN CLOSED ELSE IF x > s.prev THEN TRANSIT ELSE CLOSING
               [] OTHER -> TRANSIT
        tol == 20 + (F - Reseat(s)) \div 100
        up == x * 1000 - PressureAt(s, Crack(s), s.pos)
        down == PressureAt(s, Reseat(s), s.pos) - x * 1000
    IN IF t # TRANSIT THEN {t} ELSE IF up > tol THEN {OPENING}
       ELSE (IF up >= -tol THEN {OPENING} ELSE {}) \cup (IF down >= -tol THEN {CLOSING} ELSE {}) \cup (IF down > tol THEN {} ELSE {TRANSIT})
Limit(s, x) == LET d == s.c[9] * 1250 IN Clamp(Max(0, s.pos - d), x, Min(FULL, s.pos + d))
Outcome(s, x, t) ==     \* <<position, state>>
    IF s.stuck THEN <<s.pos, t>> ELSE IF s.fail[1] THEN <<s.fail[2] * 1000, t>>
    ELSE LET y == Limit(s, CASE t = CLOSED -> 0 [] t = OPEN -> FULL [] t = OPENING -> Line(s, Crack(s), x) [] t = CLOSING -> Line(s, Reseat(s), x) [] OTHER -> s.pos)
         IN <<y, IF t = CLOSED /\ y > 0 THEN CLOSING ELSE IF t = OPEN /\ y < FULL THEN OPENING ELSE t>>

(* ---- check valves *)
CheckPos(s) == LET d == s.drop[1] IN IF d >= s.c[11] THEN FULL ELSE IF d <= s.c[10] THEN 0 ELSE Mil(d - s.c[10], s.c[11] - s.c[10])
Check3Pos(s) ==
    LET a == s.drop[1]  b == s.drop[2]  least == s.c[12]
        x == IF Abs(a - b) < least THEN FULL \div 2
             ELSE IF a > b THEN Min(FULL, (FULL + Mil(Min(a - b - least, s.c[10] - least), s.c[10] - least)) \div 2)
             ELSE IF b > a THEN Max(0, (FULL - Mil(Min(b - a - least, s.c[11] - least), s.c[11] - least)) \div 2) ELSE s.pos
    IN IF a < 0 /\ b < 0 THEN s.pos ELSE IF B(s.c[18]) THEN FULL - x ELSE x
Moved(s, x) == IF s.stuck THEN s.pos ELSE IF s.fail[1] THEN s.fail[2] * 1000 ELSE Limit(s, x)

(* ---- the positions of a valve's paths *)
PathPos(s, pos) ==
    IF Kind(s) \notin {WAY3, CHECK3} THEN <<pos>>
    ELSE LET band == s.c[19]
             near(x) == IF band = 0 THEN FULL - x ELSE Max(0, FULL - MD(x, 200, 100 - band))            \* of the path that is open at 0
             lo == near(pos)  hi == near(FULL - pos)
         IN IF B(s.c[18]) THEN <<lo, hi>> ELSE <<hi, lo>>

Leaking(s) == IF ~s.leak[1] THEN [s EXCEPT !.lprev = 0, !.lk = 0]
              ELSE IF s.lprev # s.leak[2] THEN [s EXCEPT !.lprev = s.leak[2], !.lk = Conductivity(s.leak[2], s.p, <<1, 2>>)] ELSE s
Conduct(s, pos) ==      \* conductivity of each path, and the valve after the step
    LET t == Leaking(s)
        pp == PathPos(t, pos)
        g1 == IF t.tune >= 0 THEN Conductivity(t.tune, t.p, <<1, 2>>) ELSE t.g[1]
        u == IF t.tune >= 0 THEN [t EXCEPT !.g[1] = g1, !.tune = -1, !.tuned = TRUE, !.block[1] = <<FALSE, 0>>] ELSE [t EXCEPT !.tuned = FALSE]
        raw(i) == IF u.tuned THEN u.g[1] ELSE Max(MD(u.g[i], pp[i], 1000) \div 1000, IF Len(pp) = 1 THEN u.lk ELSE 0)
        j(i) == IF Len(pp) = 1 THEN 1 ELSE i + 1
        blocked(i) == IF u.block[j(i)][1] THEN MD(raw(i), 100 - u.block[j(i)][2], 100) ELSE raw(i)
    IN [u EXCEPT !.k = [i \in 1..2 |-> IF i <= Len(pp) THEN blocked(i) ELSE 0]]

Regulated(s) == Min(s.set + s.p[3] + (IF s.bias[1] THEN s.bias[2] ELSE 0), s.p[1])
PrvOut(s, p) == LET d == Max(0, (Regulated(s) - p[2]) * 125000) \div s.c[10] IN IF s.cut THEN 0 ELSE IF s.block[1][1] THEN MD(d, 100 - s.block[1][2], 100) ELSE d
PrvIn(s, p) == MD(s.buf, 8 * p[1], 5 * s.p[1])
PrvStep(s0, p) ==
    LET s == [s0 EXCEPT !.cut = IF s0.p[2] > s0.p[1] THEN TRUE ELSE IF s0.p[2] < s0.set THEN FALSE ELSE @]
        out == PrvOut(s, p)  in == PrvIn(s, p)
    IN [s EXCEPT !.flow = <<out, in>>, !.buf0 = s.buf, !.buf = Max(0, @ + (out - in) \div 8), !.p0 = s.p, !.p = p]

Step(s0, p) ==
    IF Kind(s0) = PRV THEN PrvStep(s0, p) ELSE
    LET s == [s0 EXCEPT !.pos0 = s0.pos]
        x == Way(s, Control(s))
        cand == CASE Kind(s) \in {VALVE, WAY3} -> {<<s.pos, CLOSED>>}
                  [] Kind(s) = CHECK  -> {<<Moved(s, CheckPos(s)), CLOSED>>}
                  [] Kind(s) = CHECK3 -> {<<Moved(s, Check3Pos(s)), CLOSED>>}
                  [] OTHER -> {Outcome(s, x, t) : t \in Turned(s, x)}
        best == CHOOSE z \in cand : \A y \in cand : z[2] <= y[2]
        t == Conduct([s EXCEPT !.cand = cand, !.prev = x, !.pos = best[1], !.st = best[2]], best[1])
        xs == Paths(s)
    IN [t EXCEPT !.p0 = s.p, !.p = p, !.flow = [i \in 1..2 |-> IF i <= Len(xs) THEN Flow(t.k[i], s.p, p, xs[i]) ELSE 0],
                 !.drop = [i \in 1..2 |-> IF i <= Len(xs) THEN p[xs[i][1]] - p[xs[i][2]] ELSE 0]]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n] IN
    CASE n = "Position" -> [s EXCEPT !.pos = a[1] * 1000]
      [] n = "Stuck"    -> [s EXCEPT !.stuck = B(a[1])]
      [] n = "FailTo"   -> [s EXCEPT !.fail = <<B(a[1]), a[2]>>]
      [] n = "Leak"     -> [s EXCEPT !.leak = <<B(a[1]), a[2]>>]
      [] n = "Bias"     -> [s EXCEPT !.bias = <<B(a[1]), a[2]>>]
      [] n = "SetPoint" -> [s EXCEPT !.set = a[1]]
      [] n = "Block"    -> [s EXCEPT !.block[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "Tune"     -> [s EXCEPT !.tune = a[1]]
      [] n = "Restart"  -> [s EXCEPT !.tune = -1]
      [] n = "Step"     -> Step([s EXCEPT !.steps = @ + 1], a)

Obs(s) == [pos |-> s.pos, state |-> s.st, k |-> s.k, flow |-> s.flow]
End(st, pos, t, y) == st = t \/ (y <= 2 /\ st \in {CLOSED, CLOSING} /\ t \in {CLOSED, CLOSING}) \/ (y >= FULL - 2 /\ st \in {OPEN, OPENING} /\ t \in {OPEN, OPENING})
In(s, flow, n) == LET xs == Paths(s) RECURSIVE G(_) G(i) == IF i > Len(xs) THEN 0 ELSE (IF xs[i][2] = n THEN Max(0, flow[i]) ELSE 0) + (IF xs[i][1] = n THEN Max(0, -flow[i]) ELSE 0) + G(i + 1) IN G(1)
Out(s, flow, n) == In(s, [i \in 1..Len(flow) |-> -flow[i]], n)
Match(s, o) ==
    IF s.act # "Step" THEN Kind(s) = PRV \/ Why("position kept", Within(o.pos, s.pos, 1))
    ELSE IF Kind(s) = PRV THEN
         /\ Why("exit flow", Within(o.flow[1], s.flow[1], 2))
         /\ Why("inlet flow", Within(o.flow[2], s.flow[2], 2 + (2 * s.p[1]) \div s.p0[1] + s.flow[2] \div 100000))
         /\ Why("mass held", Within(o.buf, Max(0, s.buf0 + (o.flow[1] - o.flow[2]) \div 8), 2 + Abs(o.flow[1] - o.flow[2]) \div 1000000))
         /\ Why("what leaves and enters the nodes", o.in = <<0, o.flow[1], 0, 0, 0>> /\ o.out = <<o.flow[2], 0, 0, 0, 0>>)
    ELSE LET xs == Paths(s)  pp == PathPos(s, o.pos) IN
         /\ Why("position and state", \E z \in s.cand : Within(o.pos, z[1], 4) /\ End(z[2], z[1], o.state, o.pos))
         /\ Why("position exactly kept", s.stuck => o.pos = s.pos0)
         /\ Why("path positions", Len(o.path) = Len(pp) /\ \A i \in 1..Len(pp) : Within(o.path[i], pp[i], 4))
         /\ LET t == Conduct([s EXCEPT !.p = s.p0], o.pos) IN
            \A i \in 1..Len(xs) :
              LET far == Abs(s.p[xs[i][1]] - s.p[xs[i][2]]) \div Lin(s.p0, xs[i])  want == Flow(o.k[i], s.p0, s.p, xs[i]) IN
              /\ Why(<<"largest conductivity", i>>, IF s.tuned THEN Within(o.g[i], s.g[i], 2 + s.g[i] \div 150) ELSE o.g[i] = s.g[i])
              /\ Why(<<"conductivity", i>>, Within(o.k[i], IF s.tuned THEN s.k[i] ELSE t.k[i], 3 + o.g[i] \div 250000 + (IF s.tuned \/ s.leak[1] THEN s.k[i] \div 150 ELSE 0)))
              /\ Why(<<"flow", i>>, Within(o.flow[i], want, 2 + 2 * far + Abs(want) \div 150 + (IF o.k[i] = 0 THEN 2 * far ELSE (2 * Abs(want)) \div o.k[i])))
              /\ Why(<<"direction", i>>, (o.flow[i] > 0 => s.p[xs[i][1]] > s.p[xs[i][2]]) /\ (o.flow[i] < 0 => s.p[xs[i][1]] < s.p[xs[i][2]]))
         /\ Why("what leaves and enters the nodes", \A n \in 1..5 : Within(o.in[n], In(s, o.flow, n), 1) /\ Within(o.out[n], Out(s, o.flow, n), 1))
Absorb(s, o) == IF s.act # "Step" THEN s
    ELSE IF Kind(s) = PRV THEN [s EXCEPT !.buf = o.buf, !.flow = o.flow]
    ELSE [s EXCEPT !.pos = o.pos, !.st = o.state, !.flow = IF Len(o.flow) = 1 THEN <<o.flow[1], 0>> ELSE o.flow, !.g = IF Len(o.g) = 1 THEN <<o.g[1], @[2]>> ELSE o.g]

(* ---- what a valve promises *)
Inv(s) == s.pos >= 0 /\ s.pos <= FULL /\ s.buf >= 0
StepOK(s, in, t) == t.act # "Step" \/
    LET d == t.c[9] * 1250  x == t.prev  pressure == Kind(t) \in {RELIEF, REGULATOR}  free == ~t.stuck /\ ~t.fail[1] IN
    /\ (free /\ Kind(t) \in {CHECK, CHECK3, RELIEF, REGULATOR}) => Abs(t.pos - s.pos) <= d + 1                                   \* never faster than the rate limit
    /\ t.stuck => t.pos = s.pos
    /\ (free /\ pressure /\ x > FullOpen(t)) => t.pos >= Min(FULL, s.pos + d) - 1 \/ t.pos >= s.pos                              \* overpressure opens
    /\ (free /\ pressure /\ x < Reseat(t)) => t.pos <= s.pos /\ t.pos <= Max(0, s.pos - d) + 1                                  \* and lack of it closes
    /\ (free /\ pressure /\ x >= Reseat(t) /\ x <= Crack(t) /\ s.st = CLOSED) => t.pos <= s.pos                                  \* a closed valve waits for the crack pressure
    /\ (free /\ pressure /\ x > FullOpen(t) /\ d >= FULL) => t.pos = FULL
    /\ (free /\ Kind(t) = CHECK /\ s.drop[1] <= t.c[10] /\ d >= FULL) => t.pos = 0
    /\ (Kind(t) = PRV) => (t.cut => t.flow[1] = 0)
    /\ (Kind(t) = PRV /\ t.buf > 0) => Within(8 * (t.buf - t.buf0), t.flow[1] - t.flow[2], 24)                                        \* what has left but not entered is held

Configs == CfgSet
Ps(s) == CASE Kind(s) = PRV -> {<<a, b, 80, 80>> : a \in {400, 800, 1600}, b \in {200, 480, 900}}
           [] Kind(s) \in {WAY3, CHECK3} -> {<<a, b, 400, 8>> : a \in {360, 420, 600}, b \in {360, 440, 600}}
           [] Kind(s) \in {RELIEF, REGULATOR} -> {<<800, 400, 8 + x, 8>> : x \in {0, 150, 250, 300, 350, 500}}
           [] OTHER -> {<<a, 400, 8, 8>> : a \in {200, 400, 420, 460, 800}}
Inputs(s) ==
    LET st(v) == <<"Step", v>>  one == IF Kind(s) \in {RELIEF, REGULATOR} THEN <<800, 400, 308, 8>> ELSE <<440, 460, 400, 8>> IN
    IF s.steps >= MaxSteps THEN {}
    ELSE {<<st(v)>> : v \in Ps(s)} \cup {<<<<"Block", <<IF Kind(s) \in {WAY3, CHECK3} THEN 1 ELSE 0, f, 40>>>>, st(one)>> : f \in 0..1} \cup {<<<<"Restart", <<>>>>, st(one)>>}
         \cup (IF Kind(s) \in {VALVE, WAY3} THEN {<<<<"Position", <<x>>>>, st(one)>> : x \in {0, 300, 1000}} ELSE {})
         \cup (IF Kind(s) \in {CHECK, CHECK3, RELIEF, REGULATOR} THEN {<<<<"Stuck", <<f>>>>, st(one)>> : f \in 0..1} \cup {<<<<"FailTo", <<f, 700>>>>, st(one)>> : f \in 0..1} ELSE {})
         \cup (IF Kind(s) \in {VALVE, CHECK, RELIEF, REGULATOR} THEN {<<<<"Leak", <<f, 1000>>>>, st(one)>> : f \in 0..1} ELSE {})
         \cup (IF Kind(s) \in {RELIEF, REGULATOR, PRV} THEN {<<<<"Bias", <<f, 100>>>>, st(one)>> : f \in 0..1} ELSE {})
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0, !.cand = {}, !.k = <<0, 0>>, !.flow = <<0, 0>>, !.p0 = <<0, 0, 0, 0>>]
=============================================================================
