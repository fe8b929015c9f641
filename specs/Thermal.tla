----------------------------- MODULE Thermal -----------------------------
(* A thermal network (aspects/thermal): three nodes that store heat (GunnsThermalCapacitor, the third may be a
   GunnsThermalPhaseChangeBattery), conductors 0-1 and 1-2, radiation 0-2 and 1-ground, a boundary temperature on node 1, a source on
   nodes 0 and 1, a heater on 1 and 2, a panel on 0, a multi-panel on 2 and 0, and the heat queues of the capacitor of node 0.

   Steps take dt/8 s. Units: 1e-6 K, 0.01 W, 1e-4 W/K, J/K, phase fractions 1e-8.
   The temperatures of a solved network are judged through the laws of its links and the balance of its nodes; where the nodes
   are not coupled they are predicted as well. Each step starts from the temperatures observed after the last (Absorb). *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxSteps

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
MD(x, y, d) == (x \div d) * y + (((x % d) * y) \div d)              \* x y / d, with (d y) in range
Within(x, y, tol) == Abs(x - y) <= tol
K == 1000000
ALL == 100000000
N == 1..3
Nothing == << <<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>> >>

(* cfg = <<1 dt/8 s, 2-4 J/K (the third 0: a phase change battery), 5-7 K, 8 G01, 9 G12 (0.01 W/K), 10 R02, 11 R1g (1e-10 W/K4), 12 boundary
   0.01 W/K, 13 boundary K, 14 source %, 15 heater %, 16 multi-panel % (of its first node), 17 tuning %,
   18 phase change K, 19 kJ/kg, 20 hot, 21 cold 0.01 kJ/kg/K, 22 structure J/K, 23 0.01 kg, 24 hot %, 25 absorptivity %, 26 area 0.01 m2>> *)
HasPcb(c) == c[4] = 0
PhaseOf(f) == IF f <= 0 THEN 0 ELSE IF f >= ALL THEN 2 ELSE 1
S0(c) == [ c |-> c, t |-> <<c[5] * K, c[6] * K, c[7] * K>>, told |-> <<c[5] * K, c[6] * K, c[7] * K>>, cap |-> <<c[2], c[3], c[4]>>, edit |-> <<-1, -1, -1>>,
           ext |-> [i \in N |-> [j \in 0..14 |-> 0]], que |-> [j \in 0..14 |-> <<>>],
           demand |-> 0, power |-> 0, sun |-> 0, multi |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, bnd |-> c[13],
           view |-> <<100, 100>>, cond |-> <<c[8], c[9]>>, block |-> Nothing, blocks |-> Nothing, flux |-> Nothing, holds |-> Nothing, hold |-> Nothing,
           leak |-> <<FALSE, 0>>, frac |-> c[24] * 1000000, mass |-> c[23] * 10000, phase |-> IF c[24] = 0 THEN 0 ELSE IF c[24] = 100 THEN 2 ELSE 1,
           wild |-> FALSE, frac0 |-> 0, mass0 |-> 0, phase0 |-> 0, t0 |-> <<0, 0, 0>>, tp |-> <<0, 0, 0>>, first |-> TRUE, stepped |-> FALSE, steps |-> 0 ]

Sum(f) == LET RECURSIVE G(_) G(j) == IF j > 14 THEN 0 ELSE f[j] + G(j + 1) IN G(0)
QSum(q) == LET RECURSIVE G(_) G(j) == IF j > Len(q) THEN 0 ELSE q[j] + G(j + 1) IN G(1)
Blocked(x, b) == IF b[1] THEN MD(x, 100 - b[2], 100) ELSE x

(* ---- heat sources, 0.01 W *)
Absorptivity8 == <<2, 4, 6, 8, 1>>
MultiSum(s) == LET RECURSIVE G(_) G(j) == IF j > 5 THEN 0 ELSE Absorptivity8[j] * s.multi[j][1] * s.multi[j][2] + G(j + 1) IN G(1)
SourceFlux(s, i) ==
    LET c == s.c
        base == CASE i = 1 -> s.demand * c[17] [] i = 2 -> s.power * c[17]
                  [] i = 3 -> MD(c[25] * s.sun, c[26] * c[17], 10000)
                  [] i = 4 -> MD(MD(MultiSum(s), c[26], 800), c[17], 100)
    IN IF s.flux[i][1] THEN s.flux[i][2] * 100 ELSE Blocked(base, s.blocks[i])
(* what the sources put into a node *)
Into(c, q, n) == CASE n = 1 -> MD(q[1], c[14], 100) + q[3] + MD(q[4], 100 - c[16], 100)
                   [] n = 2 -> MD(q[1], 100 - c[14], 100) + MD(q[2], c[15], 100)
                   [] n = 3 -> MD(q[2], 100 - c[15], 100) + MD(q[4], c[16], 100)
Fluxes(s) == [i \in 1..4 |-> SourceFlux(s, i)]

(* ---- conductances, 1e-4 W/K *)
Fifty(x) == (x + 10000) \div 20000                                   \* 0.02 K
Radiative(k, a, b) == LET x == Fifty(a)  y == Fifty(b)  q == (x * x + y * y) \div 2500  d == x + y
                          cube == q * (d \div 50) + (q * (d % 50)) \div 50
                      IN ((cube \div 1000) * k) \div 1000
RadG(s, i) == LET k == IF i = 1 THEN s.c[10] ELSE s.c[11]  a == IF i = 1 THEN s.t0[1] ELSE s.t0[2]  b == IF i = 1 THEN s.t0[3] ELSE 0
              IN IF s.first \/ a = b THEN 0 ELSE MD(Radiative(k, a, b), s.view[i], 100)
Conductance(s, i) == Blocked(CASE i = 1 -> s.cond[1] * 100 [] i = 2 -> s.cond[2] * 100 [] i = 3 -> RadG(s, 1) [] i = 4 -> RadG(s, 2) [] i = 5 -> s.c[12] * 100, s.block[i])
Conducted(g, d) == MD(MD(d \div 100, g, 10000), 1, 100)                         \* 0.01 W
ConTol(g, d) == 2 + g \div 100000 + Abs(d) \div 100000000

(* ---- heat storage *)
PcbCap(c, mass, phase) == c[22] * 100 + ((mass \div 10) * (IF phase = 2 THEN c[20] ELSE c[21])) \div 100      \* mass 1e-6 kg, 0.01 kJ/kg/K: 0.01 J/K
ExtOf(s, i) == Sum(s.ext[i])
ExtRise(s, i, cap) == MD(ExtOf(s, i), s.c[1] * 1250, cap)
Rate(c, cap, d) == MD(d, (cap * 8) \div c[1], 10000)                          \* heat taken up with a temperature rise: 0.01 W

(* ---- phase change: from the state before, the new temperature and the net power *)
Melt(d, spec, heat) == IF Abs(d) \div heat > (2 * ALL) \div spec THEN (IF d > 0 THEN 2 * ALL ELSE -2 * ALL) ELSE MD(d, spec, heat)
PcbNext(s, t, power) ==
    LET c == s.c  d == t - c[18] * K  m4 == Max(1, s.mass0 \div 100)  flood == Abs(power) > 1000000 \/ s.mass0 < 5000
        moved == CASE s.phase0 = 0 /\ d > 0 -> Melt(d, c[21], c[19])
                   [] s.phase0 = 2 /\ d < 0 -> Melt(d, c[20], c[19])
                   [] s.phase0 = 1 /\ flood -> 0
                   [] s.phase0 = 1 -> MD(MD(power * c[1], 12500, c[19]), 100, m4)
                   [] OTHER -> 0
        f == s.frac0 + moved
        hot == IF f <= 0 THEN 0 ELSE IF f < 1000000 THEN (f * (s.mass0 \div 1000)) \div 100000 ELSE (((Min(f, ALL) \div 10000) * m4) \div 10000) * 100
        want == IF s.leak[1] THEN s.leak[2] * c[1] * 100 ELSE 0
        l6 == Min(Min(want, hot), s.mass0)
        left == (s.mass0 - l6) \div 100
        g == IF l6 = 0 \/ left < 50 \/ l6 \div 1000 > left THEN f ELSE f - MD(ALL - f, l6 \div 100, left)
    IN [frac |-> Clamp(0, IF want > 0 /\ want >= hot THEN 0 ELSE g, ALL), mass |-> s.mass0 - l6, leak |-> l6, moved |-> moved, raw |-> f, hot |-> hot, want |-> want,
        exact |-> (s.phase0 # 1 /\ moved = 0), low |-> left < 50 \/ l6 \div 1000 > left \/ (s.phase0 = 1 /\ flood)]
Mixed(s) == HasPcb(s.c) /\ s.phase = 1

Solo(s) == s.cond = <<0, 0>> /\ s.c[10] = 0 /\ s.c[11] = 0
Step(s0) ==
    LET c == s0.c
        ext0 == [j \in 0..14 |-> IF Len(s0.que[j]) = 0 THEN s0.ext[1][j] ELSE (QSum(s0.que[j]) * 100) \div Len(s0.que[j])]
        s1 == [s0 EXCEPT !.ext[1] = ext0, !.cap = [i \in N |-> IF s0.edit[i] >= 0 THEN s0.edit[i] ELSE @[i]], !.edit = <<-1, -1, -1>>,
                         !.frac0 = s0.frac, !.mass0 = s0.mass, !.phase0 = s0.phase, !.t0 = s0.t]
        cap(i) == IF i = 3 /\ HasPcb(c) THEN (IF s1.phase = 1 THEN 0 ELSE PcbCap(c, s1.mass, s1.phase) \div 100) ELSE s1.cap[i]
        rise(i) == IF s1.hold[i][1] \/ cap(i) = 0 THEN 0 ELSE ExtRise(s1, i, cap(i))
        told == [i \in N |-> IF s1.hold[i][1] THEN s1.hold[i][2] * K ELSE IF i = 3 /\ Mixed(s1) THEN c[18] * K ELSE s1.told[i] + rise(i)]
        q == Fluxes(s1)
        held(i) == IF s1.hold[i][1] THEN {s1.hold[i][2]}
                   ELSE {s1.holds[j][2] : j \in {k \in 1..4 : s1.holds[k][1] /\ i \in (CASE k = 1 -> {1, 2} [] k = 2 -> {2, 3} [] k = 3 -> {1} [] OTHER -> {1, 3})}}
        free(i) == LET k == (cap(i) * 8) \div c[1]
                       g == IF i = 2 THEN Blocked(c[12], s1.block[5]) ELSE 0
                       watts == (Into(c, q, i) + g * (s1.bnd - told[i] \div K)) \div 100
                   IN IF i = 3 /\ Mixed(s1) THEN told[i] + ExtOf(s1, 3) \div 100 + watts
                      ELSE told[i] + (IF k + g \div 100 = 0 THEN 0 ELSE MD(watts * 1000, 1000, k + g \div 100))
        t == [i \in N |-> IF held(i) # {} THEN (CHOOSE x \in held(i) : TRUE) * K ELSE IF Solo(s0) THEN free(i) ELSE told[i]]
        u == [s1 EXCEPT !.t = t, !.told = t, !.first = FALSE, !.tp = told]
        p == PcbNext(u, t[3], Into(c, q, 3) + ExtOf(s1, 3))
    IN IF HasPcb(c) THEN [u EXCEPT !.frac = p.frac, !.mass = p.mass, !.phase = PhaseOf(p.frac)] ELSE u

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.stepped = FALSE] IN
    CASE n = "Ext"      -> [s EXCEPT !.ext[a[1] + 1][a[2]] = a[3] * 100]
      [] n = "Queue"    -> [s EXCEPT !.que[a[1]] = SubSeq(<<a[3], a[4], a[5], a[6]>>, 1, a[2])]
      [] n = "Demand"   -> [s EXCEPT !.demand = a[1]]
      [] n = "Power"    -> [s EXCEPT !.power = a[1]]
      [] n = "Sun"      -> [s EXCEPT !.sun = a[1]]
      [] n = "Multi"    -> [s EXCEPT !.multi[a[1] + 1] = <<a[2], a[3]>>]
      [] n = "Boundary" -> [s EXCEPT !.bnd = a[1]]
      [] n = "View"     -> [s EXCEPT !.view[a[1] + 1] = a[2]]
      [] n = "Conduct"  -> [s EXCEPT !.cond[a[1] + 1] = a[2]]
      [] n = "Block"    -> [s EXCEPT !.block[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "BlockSrc" -> [s EXCEPT !.blocks[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "Flux"     -> [s EXCEPT !.flux[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "HoldSrc"  -> [s EXCEPT !.holds[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "Hold"     -> [s EXCEPT !.hold[a[1] + 1] = <<B(a[2]), a[3]>>, !.told[a[1] + 1] = IF B(a[2]) THEN a[3] * K ELSE @]
      [] n = "Capacity" -> [s EXCEPT !.edit[a[1] + 1] = a[2]]
      [] n = "Leak"     -> [s EXCEPT !.leak = <<B(a[1]), a[2]>>]
      [] n = "Step" /\ s.wild -> s
      [] n = "Step"     -> [Step([s EXCEPT !.steps = @ + 1]) EXCEPT !.stepped = TRUE]

Obs(s) == [t |-> s.t]
Held(s, i) == IF s.hold[i][1] THEN {s.hold[i][2]}
              ELSE {s.holds[j][2] : j \in {k \in 1..4 : s.holds[k][1] /\ i \in (CASE k = 1 -> {1, 2} [] k = 2 -> {2, 3} [] k = 3 -> {1} [] OTHER -> {1, 3})}}
PcbMatch(s, o) ==
    LET p == PcbNext(s, o.t[3], o.pcb.power)
        tol == 4 + 20000 \div Max(1, s.mass0 \div 100) + Abs(p.moved) \div 1000 + (2 * Abs(p.moved)) \div Max(1, s.mass0 \div 100) + (IF s.phase0 = 1 THEN (s.c[1] * 12500 * 2) \div (s.c[19] * Max(1, s.mass0 \div 10000)) ELSE 0)
               + (IF p.leak = 0 THEN 0 ELSE 2000 + ALL \div Max(1, (s.mass0 - p.leak) \div 100))
        edge == p.raw <= tol \/ p.raw >= ALL - tol
        near == 110 + MD(tol \div 100, s.mass0 \div 100, 10000) + p.hot \div 1000           \* what leaks is limited to the hot material: 1e-6 kg
        drained == p.want > 0 /\ p.want > p.hot + near
        between == p.want > 0 /\ Abs(p.want - p.hot) <= near
    IN /\ Why("power into the battery", Within(o.pcb.power, o.store[3] + ExtOf(s, 3), 2))
       /\ Why("material leaked", p.low \/ Within(o.pcb.mass, p.mass, 3 + (IF drained \/ between THEN near ELSE 0)))
       /\ Why("leak rate", p.low \/ Within(o.pcb.leak, (p.leak * 80) \div s.c[1], 80 + (80 * (3 + IF drained \/ between THEN near ELSE 0)) \div s.c[1]))
       /\ Why("hot fraction range", o.pcb.frac >= 0 /\ o.pcb.frac <= ALL /\ (o.pcb.phase = PhaseOf(o.pcb.frac) \/ (o.pcb.frac \in {0, ALL} /\ o.pcb.phase = 1)))
       /\ Why("hot fraction", p.low \/ (IF drained THEN o.pcb.frac < 1000 ELSE between \/ Within(o.pcb.frac, p.frac, tol)))
       /\ Why("phase", p.low \/ between \/ (IF drained THEN o.pcb.phase # 2
                                 ELSE IF p.exact /\ (p.leak = 0 \/ s.phase0 = 2) THEN o.pcb.phase = s.phase0 \/ (o.pcb.phase = 1 /\ Abs(o.t[3] - s.c[18] * K) <= 1)
                                 ELSE edge \/ o.pcb.phase = PhaseOf(p.frac)))
Wild(o) == \E i \in N : o.t[i] < 50 * K \/ o.t[i] > 600 * K \/ Abs(o.store[i]) > 900000000          \* beyond the numbers of this specification
Match(s, o) ==
    ~s.stepped \/ Wild(o) \/
    LET c == s.c
        q == Fluxes(s)
        ends == << <<1, 2>>, <<2, 3>>, <<1, 3>>, <<2, 0>>, <<0, 2>> >>
        T(i) == IF i = 0 THEN 0 ELSE o.t[i]
        out(i) == o.store[i] + (CASE i = 1 -> o.f[1] + o.f[3] [] i = 2 -> o.f[2] + o.f[4] - o.f[1] - o.f[5] [] OTHER -> -o.f[2] - o.f[3]) - Into(c, o.s, i)
        bal == 12 + (IF HasPcb(c) THEN 4 ELSE 0)
    IN /\ \A i \in 1..4 : Why(<<"source", i>>, Within(o.s[i], q[i], 2 + Abs(q[i]) \div 5000))
       /\ \A i \in 1..5 :
             LET g == Conductance(s, i)  d == IF i = 5 THEN s.bnd * K - o.t[2] ELSE T(ends[i][1]) - T(ends[i][2])
             IN /\ Why(<<"conductance", i>>, (i \in {3, 4} /\ Abs(s.t0[1] - s.t0[3]) < 10 /\ i = 3) \/ Within(o.g[i], g, 2 + g \div 5000))
                /\ Why(<<"conducted heat", i>>, Within(o.f[i], Conducted(o.g[i], d), 2 + Abs(d) \div 100000000 + ConTol(o.g[i], d)))
       /\ \A i \in N :
             /\ Why(<<"held temperature", i>>, Held(s, i) = {} \/ \E x \in Held(s, i) : Within(o.t[i], x * K, 1))
             /\ Why(<<"temperature of the store", i>>, o.held[i] = o.t[i])
             /\ Why(<<"heat balance", i>>, (\E j \in N : Held(s, j) # {}) \/ Within(out(i), 0, bal))
             /\ Why(<<"net flux of the node", i>>, Within(o.net[i], -out(i), bal))
             /\ IF i = 3 /\ HasPcb(c)
                THEN IF s.hold[3][1] THEN Why("held battery", Within(o.store[3], 0, 2))
                     ELSE IF s.phase0 = 1 THEN Why("temperature of the phase change", Held(s, 3) # {} \/ Within(o.t[3], c[18] * K + (o.store[3] + ExtOf(s, 3)) \div 100, 3))
                     ELSE LET k == PcbCap(c, s.mass0, s.phase0) d == o.t[3] - s.tp[3] IN Why("sensible heat of the battery", Within(o.store[3], Rate(c, k \div 100, d) + Rate(c, k % 100, d) \div 100, 4 + k \div (30000 * c[1]) + Abs(o.store[3]) \div 5000 + (2 * Abs(o.store[3])) \div Max(1, k) + MD(Abs(ExtOf(s, 3)), 150, Max(1, k))))
                ELSE Why(<<"stored heat", i>>, Within(o.store[i], Rate(c, s.cap[i], o.t[i] - s.tp[i]), 3 + s.cap[i] \div (600 * c[1])))
       /\ Why("heat to the boundary", Within(o.into, -o.f[5], 1))
       /\ (~HasPcb(c) \/ PcbMatch(s, o))
Absorb(s, o) == IF ~s.stepped THEN s ELSE
    LET u == [s EXCEPT !.t = o.t, !.told = o.t, !.wild = Wild(o)] IN IF HasPcb(s.c) THEN [u EXCEPT !.frac = o.pcb.frac, !.mass = o.pcb.mass, !.phase = o.pcb.phase] ELSE u

(* what the phase change promises: heat only ever moves the fraction its own way, and never beyond all of the material *)
Inv(s) == /\ s.frac >= 0 /\ s.frac <= ALL /\ s.mass >= 0
          /\ HasPcb(s.c) => s.phase = PhaseOf(s.frac) \/ (s.phase = 1 /\ s.frac \in {0, ALL})      \* rounded
StepOK(s, in, t) ==
    /\ t.mass <= s.mass
    /\ (t.stepped /\ HasPcb(t.c) /\ ~t.leak[1]) =>
         LET p == Into(t.c, Fluxes(t), 3) + ExtOf(t, 3) IN
         /\ (t.frac > s.frac => (t.t[3] > t.c[18] * K \/ p > 0)) /\ (t.frac < s.frac => (t.t[3] < t.c[18] * K \/ p < 0))
         /\ (s.phase = 1 /\ t.phase = 1 /\ t.hold[3][1] = FALSE /\ ~t.holds[2][1] /\ ~t.holds[4][1]) => Within(t.t[3], t.c[18] * K, 10000)
    /\ (t.stepped /\ Solo(t) /\ ~t.hold[1][1] /\ ~t.holds[1][1] /\ ~t.holds[3][1] /\ ~t.holds[4][1] /\ t.cap[1] > 0) =>
         LET p == Into(t.c, Fluxes(t), 1) + ExtOf(t, 1) IN (p > 200 => t.t[1] > t.t0[1] \/ s.told # s.t) /\ (p = 0 => t.t[1] = s.told[1])

Configs == CfgSet
St == <<"Step", <<>>>>
Inputs(s) == IF s.steps >= MaxSteps THEN {}
    ELSE {<<St>>}
         \cup {<<<<"Ext", <<2, 0, w>>>>, St>> : w \in {-1000, 0, 1000}}
         \cup {<<<<"Queue", <<3, n, 10, 20, 30, 60>>>>, St>> : n \in {0, 2, 4}}
         \cup {<<<<"Demand", <<w>>>>, St>> : w \in {0, 100}}
         \cup {<<<<"Flux", <<1, f, 500>>>>, St>> : f \in 0..1}
         \cup {<<<<"BlockSrc", <<0, f, 50>>>>, St>> : f \in 0..1}
         \cup {<<<<"Hold", <<2, f, 280>>>>, St>> : f \in 0..1}
         \cup {<<<<"Leak", <<f, 100>>>>, St>> : f \in 0..1}
Bound(s) == TRUE
View(s) == [s EXCEPT !.stepped = FALSE]
=============================================================================
