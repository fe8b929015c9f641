----------------------------- MODULE Process -----------------------------
(* The process links of the fluid aspect that take species out of a stream or put them back (aspects/fluid/source: GunnsFluidAdsorber,
   GunnsFluidMultiAdsorber with GunnsFluidAdsorptionCompound, GunnsFluidSeparatorGas, GunnsFluidSelectiveMembrane, GunnsFluidMultiSeparator), one at a
   time, between nodes at 300 K whose gas the environment imposes, with an imposed flow through the link; steps of 1/8 s.

   The gas is nitrogen with water vapour, carbon dioxide and ammonia as trace compound. Amounts in 1e-11 kmol (u), flows in u/s, mole fractions in
   0.001 (of the trace compound 0.0001 of the gas), pressures in kPa.
   Species: 1 N2, 2 H2O, 3 CO2, 4 NH3. Nodes 1..4 are the link's ports 0..3. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps

ADSORBER == 0  MULTI == 1  SEPARATOR == 2  MEMBRANE == 3  SPLITTER == 4
PSAT == 3537            \* of water at 300 K, Pa

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
MD(x, y, d) == (x \div d) * y + (((x % d) * y) \div d)
Mil(x, d) == ((x * 1000) \div d) * 1000 + ((((x * 1000) % d) * 1000) \div d)         \* x / d in 1e-6, for d up to 2e6
Fill(x, d) == LET RECURSIVE G(_, _, _) G(n, q, r) == IF n = 0 THEN q ELSE IF 2 * r >= d THEN G(n - 1, 2 * q + 1, 2 * r - d) ELSE G(n - 1, 2 * q, 2 * r) IN IF x >= d THEN 32768 ELSE G(15, 0, x)     \* x / d in 1/32768
Within(x, y, tol) == Abs(x - y) <= tol
Zero == <<0, 0, 0, 0>>

(* cfg = <<1 kind, 2 H2O, 3 CO2, 4 NH3, 5 pressure (of every node), then
   adsorber:  6 gas (1 H2O, 2 CO2), 7 efficiency, 8 greatest rate, 9 capacity, 10 desorption rate, 11 desorbing, 12 adsorbed, 13 trace compound efficiency, 14 its capacity (0: none), 15 adsorbed
   multi:     6.. (H2O) 16.. (CO2): present, capacity, c0, c1 (1e-5/K), switching pressure (Pa), rate (u/s/kPa), taper, depends on the other, exponent, adsorbed; 26 trace compound too
   separator: 6 exponent, 7 capacity, 8 reference speed, 9 reference pressure, 10 reference rate, 11 speed, 12 transfer rate, 13 liquid
   membrane:  6 coefficient (u/s/kPa), 7 gas
   splitter:  6 ports, 7 port and 8 fraction for H2O, 9, 10 for CO2, 11, 12 for NH3 (port 0: not separated), 13 CO2 listed first>> *)
Kind(s) == s.c[1]
Gas(h, c, t, p) == [h |-> h, c |-> c, t |-> t, p |-> p]
S0(c) == LET g == Gas(c[2], c[3], c[4], c[5]) IN
    [ c |-> c, g |-> <<g, g, g, g>>, inner |-> g, pv |-> <<c[5], c[5], c[5], c[5]>>, flux |-> 0, flux0 |-> 0, weight |-> 2801, cycle |-> IF c[1] = ADSORBER THEN B(c[11]) ELSE FALSE,
      malf |-> <<<<FALSE, 0>>, <<FALSE, 0>>>>, speed |-> IF c[1] = SEPARATOR THEN c[11] ELSE 0, transfer |-> IF c[1] = SEPARATOR THEN c[12] ELSE 0,
      part |-> IF c[1] = SPLITTER THEN <<c[8], c[10], c[12]>> ELSE <<0, 0, 0>>,
      stored0 |-> <<0, 0, 0>>, stored |-> CASE c[1] = ADSORBER -> <<c[12], c[15], 0>> [] c[1] = MULTI -> <<c[6] * c[15], c[16] * c[25], 0>> [] c[1] = SEPARATOR -> <<c[13], 0, 0>> [] OTHER -> <<0, 0, 0>>,
      slack |-> 0, over |-> FALSE, edge |-> FALSE, dp |-> 0, taken |-> Zero, taken2 |-> Zero, src |-> Zero, heat |-> 0, wet |-> FALSE, unsure |-> FALSE, act |-> "", n |-> 0, steps |-> 0 ]

Up(s)   == IF s.flux >= 0 THEN 1 ELSE 2
Down(s) == 3 - Up(s)
Share(g, x) == CASE x = 1 -> 1000 - g.h - g.c [] x = 2 -> g.h [] x = 3 -> g.c
Carry(g, f) == <<MD(f, Share(g, 1), 1000), MD(f, g.h, 1000), MD(f, g.c, 1000), MD(f, g.t, 10000)>>      \* what flow f carries
Put(v, x, y) == [v EXCEPT ![x] = y]

(* `taken`: what the link takes out of the stream (< 0: adds), u/s of each species, at the exit; `taken2`: what it takes from (< 0: gives to) another node *)
Adsorber(s) ==
    LET x == s.c[6] + 1
        in == Carry(s.g[Up(s)], Abs(s.flux))
        eff == IF s.malf[1][1] THEN s.malf[1][2] ELSE IF s.cycle THEN -1000 ELSE s.c[7]
        room == s.c[9] - s.stored[1]
        rate == IF s.cycle THEN -Max(0, Min(8 * Min(s.stored[1], 200000000), -MD(s.c[10], eff, 1000)))
                ELSE Max(0, Min(MD(in[x], eff, 1000), Min(s.c[8], 8 * Min(room, 200000000))))
        tcEff == IF s.c[14] > 0 THEN MD(s.c[13], Clamp(0, Mil(Max(0, s.c[14] - s.stored[2]), s.c[14]), 1000000), 1000) ELSE s.c[13] * 1000      \* 1e-6
        tc == IF s.cycle THEN 0 ELSE MD(in[4], tcEff, 1000) \div 1000
    IN [s EXCEPT !.taken = Put(Put(Zero, x, rate), 4, tc), !.src = Put(Zero, Down(s), -rate), !.stored = <<@[1] + rate \div 8, @[2] + tc \div 8, 0>>]

Fillk(s, i) == Fill(s.stored[i], s.c[7 + 10 * (i - 1)])
Sorb(s, i) ==           \* compound i (1 H2O, 2 CO2) of the multi-adsorber
    LET k == 5 + 10 * (i - 1)
        a(j) == s.c[k + j]
        in == Carry(s.inner, Abs(s.flux))[i + 1]
        eff == Clamp(-1000, a(3) + 3 * a(4), 1000)
        pp == s.g[1].p * Share(s.inner, i + 1)         \* Pa
        r0 == IF pp < a(5) \/ eff < 0 THEN MD(MD(a(6), Min(0, pp - a(5)), 1000), Abs(eff), 1000) ELSE MD(in, eff, 1000)
        fill == Fillk(s, i)
        wide == Max(3277, fill)
        pow == CASE a(9) = 1 -> wide [] a(9) = 2 -> (wide * wide) \div 32768 [] OTHER -> (((wide * wide) \div 32768) * wide) \div 32768
        r1 == IF B(a(7)) THEN IF r0 > 0 THEN MD(r0, 32768 - pow, 32768) ELSE MD(r0, fill, 32768) ELSE r0
        f2 == Fillk(s, 3 - i)
        r2 == IF B(a(8)) THEN IF r1 > 0 THEN MD(r1, f2, 32768) ELSE MD(r1, 32768 - f2, 32768) ELSE r1
        r3 == IF s.malf[i][1] THEN MD(r2, s.malf[i][2], 1000) ELSE r2
        r4 == IF r3 > 0 THEN Min(r3, 8 * Min(a(2) - s.stored[i], 200000000)) ELSE Max(r3, -8 * Min(s.stored[i], 200000000))
    IN IF ~B(a(1)) THEN s ELSE [s EXCEPT !.taken[i + 1] = r4, !.slack = @ + IF B(a(7)) \/ B(a(8)) THEN Abs(r0) \div 10000 ELSE 0, !.stored[i] = Clamp(0, @ + r4 \div 8, a(2))]
Multi(s0) ==
    LET s1 == Sorb([s0 EXCEPT !.taken = Zero, !.slack = 0, !.inner = IF s0.flux = 0 THEN @ ELSE s0.g[Up(s0)]], 1)
        s2 == Sorb(s1, 2)
        tc == IF B(s0.c[26]) THEN Carry(s2.inner, Abs(s2.flux))[4] \div 2 ELSE 0
        s == [s2 EXCEPT !.taken[4] = tc, !.stored[3] = @ + tc \div 8]
        net == s.taken[2] + s.taken[3]
    IN [s EXCEPT !.src = Put(Zero, Down(s), -net), !.heat = -net]

Separator(s0) ==
    LET inner == IF s0.flux = 0 THEN s0.inner ELSE s0.g[Up(s0)]
        rh == inner.p * inner.h
        left == s0.stored[1] - Max(0, s0.transfer) \div 8
        s == [s0 EXCEPT !.inner = inner, !.stored = <<Max(0, left), @[2] + Max(0, -left), 0>>, !.wet = s0.flux > 0 /\ rh >= PSAT, !.unsure = s0.flux > 0 /\ Within(rh, PSAT, 20)]
        avail == Carry(inner, Abs(s.flux))[2]
        cond == Min(avail, MD(s.c[10], s.speed, s.c[8]))
        sep == Min(cond, 8 * Min(s.c[7] - s.stored[1], 200000000))
        t == IF ~s.wet THEN [s EXCEPT !.taken = Zero, !.src = Zero, !.over = FALSE, !.edge = FALSE]
             ELSE [s EXCEPT !.taken = Put(Zero, 2, sep), !.src = Put(Zero, 2, -sep), !.over = cond > sep, !.edge = Within(cond, 8 * Min(s.c[7] - s.stored[1], 200000000), 9 + cond \div 5000), !.stored[1] = @ + sep \div 8]
        fill == Fill(t.stored[1], t.c[7])
        load == IF t.c[6] = 1 THEN fill ELSE (fill * fill) \div 32768
    IN [t EXCEPT !.dp = MD(2 * MD(load, t.c[9] * 500, 32768), t.speed, t.c[8])]

Weight(g) == (Share(g, 1) * 280134 + g.h * 180153 + g.c * 440095) \div 100000      \* molecular weight, 0.01

(* the membrane passes species between the stream and node 3, by the pressures and the flow before the step *)
Membrane(s, f0) ==
    LET x == s.c[7] + 1
        pp(n) == s.pv[n] * Share(s.g[n], x)         \* Pa
        u == IF f0 >= 0 THEN 1 ELSE 2
        du == pp(u) - pp(3)  dd == pp(3 - u) - pp(3)
        avail == MD(MD(Carry(s.g[u], Abs(f0))[x], s.weight, Weight(s.g[u])), 99, 100)
        m0 == IF (du < 0 /\ dd > 0) \/ (du > 0 /\ dd < 0) THEN 0
              ELSE IF du > 0 THEN Min(MD(s.c[6], du, 1000), avail) ELSE MD(s.c[6], dd, 1000)
        m == IF s.malf[1][1] THEN MD(m0, 1000 - Clamp(0, s.malf[1][2], 1000), 1000) ELSE m0
        src == IF m > 0 THEN [Zero EXCEPT ![u] = -m, ![3] = m] ELSE [Zero EXCEPT ![3 - u] = -m, ![3] = m]
    IN [s EXCEPT !.taken = Put(Zero, x, m), !.src = src, !.unsure = (Abs(du) <= 30 \/ Abs(dd) <= 30) ]

Splitter(s) ==
    LET in == Carry(s.g[Up(s)], Abs(s.flux))
        port(i) == s.c[5 + 2 * i]
        thru(i) == IF port(i) = 0 THEN 0 ELSE MD(in[i + 1], s.part[i], 1000)
        tc == IF s.c[11] = 0 THEN 0 ELSE MD(in[4], s.part[3], 1000)
    IN [s EXCEPT !.taken = <<0, thru(1), thru(2), tc>>, !.stored = <<thru(1), thru(2), 0>>]

Step(s0, flux) ==
    LET s1 == [s0 EXCEPT !.flux = flux, !.flux0 = s0.flux, !.stored0 = s0.stored, !.unsure = FALSE]
        t == CASE Kind(s1) = ADSORBER -> Adsorber(s1) [] Kind(s1) = MULTI -> Multi(s1) [] Kind(s1) = SEPARATOR -> Separator(s1)
               [] Kind(s1) = MEMBRANE -> Membrane(s1, s0.flux) [] Kind(s1) = SPLITTER -> Splitter(s1)
    IN [t EXCEPT !.weight = Weight(s0.g[Up(t)]), !.pv = <<s0.g[1].p, s0.g[1].p, s0.g[3].p, s0.g[4].p>>]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n] IN
    CASE n = "Gas"      -> [s EXCEPT !.g[a[1] + 1] = Gas(a[2], a[3], a[4], a[5])]
      [] n = "Cycle"    -> [s EXCEPT !.cycle = B(a[1])]
      [] n = "Malf"     -> [s EXCEPT !.malf[a[3] + 1] = <<B(a[1]), a[2]>>]
      [] n = "Speed"    -> [s EXCEPT !.speed = a[1]]
      [] n = "Transfer" -> [s EXCEPT !.transfer = a[1]]
      [] n = "Fraction" -> [s EXCEPT !.part[a[1] + 1] = a[2]]
      [] n = "Restart"  -> IF Kind(s) = SEPARATOR THEN [s EXCEPT !.stored[2] = 0] ELSE s
      [] n = "Step"     -> Step([s EXCEPT !.steps = @ + 1], a[1])

Obs(s) == [stored |-> s.stored, src |-> s.src, flow |-> s.flux]

-----------------------------------------------------------------------------
Net(o, n, x) == o.in[n][x] - o.out[n][x]
Tol(s) == 12 + Abs(s.flux) \div 100000
Loose(s) == Tol(s) + IF Kind(s) \in {MULTI, SEPARATOR, MEMBRANE} THEN 12 + s.slack + (Abs(s.taken[2]) + Abs(s.taken[3])) \div 5000 + Abs(s.flux) \div 32768 ELSE 0
Species == 1..4
Places == 1..4
All(o, x) == Net(o, 1, x) + Net(o, 2, x) + Net(o, 3, x) + Net(o, 4, x)
(* what the link holds of species x before and after *)
Grown(s, o, x) ==
    CASE Kind(s) = ADSORBER  -> IF x = s.c[6] + 1 THEN o.stored[1] - s.stored0[1] ELSE IF x = 4 THEN o.stored[2] - s.stored0[2] ELSE 0
      [] Kind(s) = MULTI     -> IF x = 2 THEN o.stored[1] - s.stored0[1] ELSE IF x = 3 THEN o.stored[2] - s.stored0[2] ELSE IF x = 4 THEN o.stored[3] - s.stored0[3] ELSE 0
      [] Kind(s) = SEPARATOR -> IF x = 2 THEN (o.stored[1] - s.stored0[1]) - (o.stored[2] - s.stored0[2]) + Max(0, s.transfer) \div 8 ELSE 0
      [] OTHER -> 0
(* of the splitter, what left the stream in this step is in the buffer, and what was in the buffer leaves it *)
Buffered(s, o, x) == IF Kind(s) # SPLITTER THEN 0 ELSE CASE x = 2 -> o.stored[1] - s.stored0[1] [] x = 3 -> o.stored[2] - s.stored0[2] [] OTHER -> 0
Conserved(s, o) == \A x \in Species : Within(All(o, x) + 8 * Grown(s, o, x) + Buffered(s, o, x), 0, 24 + Abs(s.flux) \div 1000000)

(* the flows at each node *)
Expect(s, n, x) ==
    LET in == Carry(s.g[Up(s)], Abs(s.flux))
        thru == (IF n = Down(s) THEN in[x] ELSE 0) - (IF n = Up(s) THEN in[x] ELSE 0)
        port(i) == s.c[5 + 2 * i] + 1
        exit == IF Kind(s) = SPLITTER /\ n > 2
                THEN CASE x = 2 -> IF port(1) = n THEN s.stored0[1] ELSE 0 [] x = 3 -> IF port(2) = n THEN s.stored0[2] ELSE 0 [] x = 4 -> IF port(3) = n THEN s.taken[4] ELSE 0 [] OTHER -> 0
                ELSE 0
    IN thru + exit
       - (IF Kind(s) = MEMBRANE THEN IF n = 3 THEN -s.taken[x] ELSE IF n = (IF s.taken[x] > 0 THEN Up(s) ELSE Down(s)) THEN s.taken[x] ELSE 0
          ELSE IF n = Down(s) THEN s.taken[x] ELSE 0)
Source(s, o) ==         \* the network's solution is given the same removals as the nodes
    IF Kind(s) = SPLITTER THEN
         /\ LET n == IF s.flux0 >= 0 THEN 2 ELSE 1 IN Within(o.src[n], -(s.stored0[1] + s.stored0[2]), 6) /\ o.src[3 - n] = 0
         /\ \A n \in 3..4 : Within(o.src[n], (IF s.c[7] + 1 = n THEN s.stored0[1] ELSE 0) + (IF s.c[9] + 1 = n THEN s.stored0[2] ELSE 0), 6)
    ELSE \A n \in Places : Within(o.src[n], s.src[n], Loose(s))
Match(s, o) ==
    IF s.act # "Step" THEN \A i \in 1..Len(o.stored) : Why("stored kept", Within(o.stored[i], s.stored[i], 1))
    ELSE
    /\ Why("flow", Within(o.flow, s.flux, 2))
    /\ Why("conserved", Conserved(s, o))
    /\ Why("no species is made to flow backwards", \A x \in Species : o.in[Down(s)][x] >= -2 \/ Kind(s) = MEMBRANE)
    /\ (s.unsure \/
       (/\ Why("flows", \A n \in Places : \A x \in Species : Within(Net(o, n, x), Expect(s, n, x), Loose(s)))
        /\ Why("source", Source(s, o))
        /\ Why("stored", \A i \in 1..Len(o.stored) : Within(o.stored[i], s.stored[i], Loose(s)))
        /\ (Kind(s) = MULTI => Why("heat", Within(o.heat, s.heat, Loose(s))))
        /\ (Kind(s) = SEPARATOR => Why("overflow", o.over = s.over \/ s.edge) /\ Why("pressure rise", Within(o.dp, s.dp, 20 + s.dp \div 1000)))))
Absorb(s, o) == IF s.act = "Step" THEN [s EXCEPT !.stored = [i \in 1..3 |-> IF i <= Len(o.stored) THEN o.stored[i] ELSE 0]] ELSE s

Capacity(s, i) == CASE Kind(s) = ADSORBER /\ i = 1 -> Max(s.c[9], s.c[12]) [] Kind(s) = MULTI /\ i < 3 -> s.c[7 + 10 * (i - 1)] [] Kind(s) = SEPARATOR /\ i = 1 -> Max(s.c[7], s.c[13]) [] OTHER -> 2000000000
Inv(s) == \A i \in 1..3 : Why("within capacity", s.stored[i] >= 0 /\ s.stored[i] <= Capacity(s, i) + 1)
(* nothing is taken out of the stream that it does not carry *)
StepOK(s, in, t) == (in[1] = "Step" /\ Kind(t) # MEMBRANE) => Why("no more than carried", \A x \in Species : t.taken[x] <= Carry(IF Kind(t) \in {MULTI, SEPARATOR} THEN t.inner ELSE t.g[Up(t)], Abs(t.flux))[x] + 2)

-----------------------------------------------------------------------------
Configs == CfgSet
Bound(s) == s.steps <= MaxSteps
View(s) == s
Flows == {100000, -40000, 0}
Inputs(s) ==
    {<< <<"Step", <<f>>>> >> : f \in Flows}
    \cup {<< <<"Gas", <<n, 60, 20, 30, 100>>>>, <<"Step", <<100000>>>> >> : n \in {0, 1}}
    \cup {<< <<"Gas", <<0, 2, 1, 0, 100>>>>, <<"Step", <<f>>>> >> : f \in {100000, 0}}
    \cup (CASE Kind(s) = ADSORBER -> {<< <<"Cycle", <<1>>>>, <<"Step", <<f>>>> >> : f \in Flows} \cup {<< <<"Cycle", <<0>>>>, <<"Step", <<f>>>> >> : f \in Flows} \cup {<< <<"Malf", <<1, -500, 0>>>>, <<"Step", <<100000>>>> >>}
            [] Kind(s) = MULTI -> {<< <<"Malf", <<1, 300, 1>>>>, <<"Step", <<100000>>>> >>}
            [] Kind(s) = SEPARATOR -> {<< <<"Speed", <<v>>>>, <<"Step", <<100000>>>> >> : v \in {0, 500}} \cup {<< <<"Transfer", <<v>>>>, <<"Step", <<100000>>>> >> : v \in {0, 20000}}
            [] Kind(s) = MEMBRANE -> {<< <<"Gas", <<2, h, 1, 0, 80>>>>, <<"Step", <<f>>>> >> : h \in {0, 200}, f \in {100000, -40000}} \cup {<< <<"Malf", <<1, 300, 0>>>>, <<"Step", <<100000>>>> >>}
            [] Kind(s) = SPLITTER -> {<< <<"Fraction", <<i, v>>>>, <<"Step", <<100000>>>> >> : i \in 0..2, v \in {0, 1000}})
=============================================================================
