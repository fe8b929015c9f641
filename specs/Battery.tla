----------------------------- MODULE Battery -----------------------------
(* A battery of cells (aspects/electrical/Batt: GunnsElectBattery, GunnsElectBatteryCell) between two terminals whose potentials the
   environment imposes.

   Steps take 36 s times cfg[11]. Units: charge 1e-6 of a cell's capacity, mAh, mV, mA, mohm, 0.01 mS, mW.
   A step is judged from the state before it and the observed conductance, source potential and current; the observed charge of the
   cells is taken over after each step (Absorb). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
MD(x, y, d) == (x \div d) * y + (((x % d) * y) \div d)
Amps(g, v) == (g \div 100000) * v + (((g % 100000) \div 10) * v + ((g % 10) * v) \div 10) \div 10000
Within(x, y, tol) == Abs(x - y) <= tol
FULL == 1000000

(* cfg = <<1 cells, 2 parallel, 3 cell mohm, 4 interconnect mohm, 5 battery mAh, 6 mV empty, 7 breakpoint %, 8 mV there, 9 mV full, 10 initial %, 11 time step / 36 s>> *)
S0(c) == LET N == 1..c[1] IN
         [ c |-> c, soc |-> [i \in N |-> c[10] * 10000], has |-> [i \in N |-> c[10] > 0], open |-> [i \in N |-> FALSE], short |-> [i \in N |-> FALSE],
           capm |-> [i \in N |-> <<FALSE, 0>>], hot |-> [i \in N |-> <<FALSE, 0>>], p |-> [i \in N |-> 0], inc |-> [i \in N |-> 0],
           block |-> <<FALSE, 0>>, away |-> <<FALSE, 0, 0>>, rcell |-> 1, rtimer |-> 0, p0 |-> 0, p1 |-> 0,
           soc0 |-> [i \in N |-> 0], has0 |-> [i \in N |-> FALSE], pw0 |-> [i \in N |-> 0], flux |-> 0, act |-> "", n |-> 0, steps |-> 0 ]
Cells(s) == 1..s.c[1]
Sum(f, n) == LET RECURSIVE G(_) G(j) == IF j > n THEN 0 ELSE f[j] + G(j + 1) IN G(1)

(* ---- the cells as their neighbours see them *)
Volt(c, soc) == IF soc <= c[7] * 10000 THEN c[6] + MD(soc, c[8] - c[6], c[7] * 10000)
                ELSE c[8] + MD(soc - c[7] * 10000, c[9] - c[8], (100 - c[7]) * 10000)
CellVolt(s, soc, i) == IF s.open[i] \/ s.short[i] \/ s.hot[i][1] THEN 0 ELSE Volt(s.c, soc[i])
Dead(s, i) == s.open[i] \/ s.short[i]
Broken(s, i) == ~s.short[i] /\ (s.open[i] \/ s.hot[i][1])                      \* carries no current
CapOf(s, i) == IF s.capm[i][1] THEN s.capm[i][2] ELSE s.c[5] \div s.c[1]
CellCap(s, i) == IF Dead(s, i) THEN 0 ELSE CapOf(s, i)

(* ---- the battery: conductance, open circuit potential *)
Conductance(s) ==
    LET c == s.c
        good == Cardinality({i \in Cells(s) : ~s.short[i] /\ ~Broken(s, i)})
        short == \E i \in Cells(s) : s.short[i]
        g == IF B(c[2]) THEN IF short THEN 100000000 \div c[4] ELSE IF good = 0 THEN 0 ELSE (good * 100000000) \div (c[4] * good + c[3])
             ELSE IF \E i \in Cells(s) : Broken(s, i) THEN 0 ELSE 100000000 \div (c[4] + good * c[3])
    IN IF s.block[1] THEN MD(g, 100 - s.block[2], 100) ELSE g
Source(s, soc) == LET v == [i \in Cells(s) |-> CellVolt(s, soc, i)] IN
    IF B(s.c[2]) THEN (CHOOSE x \in {v[i] : i \in Cells(s)} \cup {0} : \A i \in Cells(s) : v[i] <= x) ELSE Sum(v, s.c[1])

(* ---- charge: who carries the current, and what it does to a cell *)
Carrying(s, flux) == {i \in Cells(s) : (~Dead(s, i) /\ s.has0[i]) \/ (flux < 0 /\ CellCap(s, i) > 0)}
Share(s, flux) == LET n == Cardinality(Carrying(s, flux)) IN IF n = 0 THEN 0 ELSE flux \div n
Drop(s, i, amps) == MD(amps, 10000 * s.c[11], CapOf(s, i))
Energy(s, i) == (MD(MD(s.soc0[i], CapOf(s, i), 100000), Volt(s.c, s.soc0[i]), 1000) * 36) \div 100       \* J
Growth(s, i) == LET d == s.hot[i][2] IN MD(MD(Energy(s, i), 72000 * s.c[11], d), 1, d)                 \* mW per step
Heating(s, i) == s.hot[i][1] /\ s.has0[i] /\ ~Dead(s, i) /\ CapOf(s, i) > 0
Power(s, i) == IF Heating(s, i) THEN IF s.pw0[i] = 0 THEN Growth(s, i) ELSE s.pw0[i] + s.inc[i] ELSE 0
Raw(s, i, flux, p) == s.soc0[i] - Drop(s, i, Share(s, flux)) - (IF Heating(s, i) THEN Drop(s, i, MD(p, 1000, Max(1, Volt(s.c, s.soc0[i])))) ELSE 0)
NewSoc(s, i, flux, p) == IF s.short[i] THEN 0 ELSE IF s.open[i] THEN s.soc0[i] ELSE IF CapOf(s, i) = 0 THEN 0 ELSE Clamp(0, Raw(s, i, flux, p), FULL)

(* ---- thermal runaway passes from cell to cell *)
Runaway(s) ==
    LET k == IF s.rcell > s.c[1] THEN 1 ELSE s.rcell  late == (s.rtimer + 1) * 10 >= s.away[3] IN
    IF s.away[1] THEN [s EXCEPT !.hot[k] = <<TRUE, s.away[2]>>, !.rtimer = IF late THEN 0 ELSE s.rtimer + 1, !.rcell = IF late THEN k + 1 ELSE k]
    ELSE IF s.rtimer > 0 \/ s.rcell > 1 THEN [s EXCEPT !.hot = [i \in Cells(s) |-> <<FALSE, 0>>], !.rtimer = 0, !.rcell = 1]
    ELSE s

Step(s0, a) ==
    LET s == [Runaway(s0) EXCEPT !.soc0 = s0.soc, !.has0 = s0.has, !.pw0 = s0.p, !.p0 = a[1], !.p1 = a[2]]
        flux == Amps(Conductance(s), a[1] - a[2] + Source(s, s.soc0))
        pw == [i \in Cells(s) |-> Power(s, i)]
        soc == [i \in Cells(s) |-> NewSoc(s, i, flux, pw[i])]
        has == [i \in Cells(s) |-> soc[i] > 0]
    IN [s EXCEPT !.flux = flux, !.soc = soc, !.has = has, !.inc = [i \in Cells(s) |-> IF s.pw0[i] = 0 THEN pw[i] ELSE @[i]],
                 !.p = [i \in Cells(s) |-> IF ~has[i] \/ ~s.hot[i][1] THEN 0 ELSE IF s.open[i] THEN s.pw0[i] ELSE pw[i]]]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n] IN
    CASE n = "Open"    -> [s EXCEPT !.open[a[1]] = B(a[2])]
      [] n = "Short"   -> [s EXCEPT !.short[a[1]] = B(a[2])]
      [] n = "Cap"     -> [s EXCEPT !.capm[a[1]] = <<B(a[2]), a[3]>>]
      [] n = "Hot"     -> [s EXCEPT !.hot[a[1]] = <<B(a[2]), a[3]>>]
      [] n = "Runaway" -> [s EXCEPT !.away = <<B(a[1]), a[2], a[3]>>]
      [] n = "Block"   -> [s EXCEPT !.block = <<B(a[1]), a[2]>>]
      [] n = "Restart" -> [s EXCEPT !.flux = 0]
      [] n = "Step"    -> Step([s EXCEPT !.steps = @ + 1], a)

Obs(s) == [soc |-> s.soc]
Outputs(s, o) ==
    LET eff == [i \in Cells(s) |-> IF Dead(s, i) THEN 0 ELSE o.cell[i]]  v == [i \in Cells(s) |-> CellVolt(s, o.cell, i)] IN
    /\ Why("state of charge", Within(o.soc, Sum(eff, s.c[1]) \div s.c[1], 3))
    /\ Why("capacity", Within(o.cap, Sum([i \in Cells(s) |-> CellCap(s, i)], s.c[1]), 1))
    /\ \A i \in Cells(s) : /\ Why("cell voltage", Within(o.v[i], v[i], 2)) /\ Why("range", o.cell[i] >= 0 /\ o.cell[i] <= FULL)
Match(s, o) ==
    IF s.act = "Restart" THEN /\ Outputs(s, o) /\ Why("heat at restart", Within(o.heat, Sum(o.p, s.c[1]), 2 + s.c[1]))
                              /\ Why("charge kept", \A i \in Cells(s) : Within(o.cell[i], s.soc[i], 1))
    ELSE s.act # "Step" \/
    LET g == Conductance(s)  v == Source(s, s.soc0)  dv == s.p0 - s.p1 + o.source IN
    /\ Why("conductance", Within(o.g, g, 3))
    /\ Why("open circuit potential", Within(o.source, v, 1 + s.c[1]))
    /\ Why("current", Within(o.flux, Amps(o.g, dv), 2 + o.g \div 100000 + Abs(dv) \div 100000))
    /\ Why("terminal voltage", o.volts = s.p1)
    /\ Why("heat", Within(o.heat, MD(Abs(o.flux), Abs(dv), 1000) + Sum(o.p, s.c[1]), 6 + Abs(o.flux) \div 800 + Abs(dv) \div 800))
    /\ \A i \in Cells(s) :
         LET want == Power(s, i)
             used == s.hot[i][1] /\ o.p[i] = 0 /\ ~o.has[i]                     \* the last of its charge
             p == IF used THEN want ELSE o.p[i]
             cap == Max(1, CapOf(s, i))
             raw == Raw(s, i, o.flux, p)
             run == IF Heating(s, i) THEN Drop(s, i, MD(p, 1000, Max(1, Volt(s.c, s.soc0[i])))) ELSE 0
             tol == 3 + (20000 * s.c[11]) \div cap + (IF Heating(s, i) THEN run \div 200 + Drop(s, i, 2 + 500 \div Max(1, Volt(s.c, s.soc0[i]))) + (IF used THEN run \div 50 ELSE 0) ELSE 0)
             limp == ~s.open[i] /\ ~s.short[i] /\ CapOf(s, i) > 0
         IN /\ Why(<<"charge of cell", i>>, IF limp THEN Within(o.cell[i], Clamp(0, raw, FULL), tol) ELSE Within(o.cell[i], NewSoc(s, i, o.flux, p), 0))
            /\ Why(<<"empty cell", i>>, IF ~limp THEN (s.open[i] /\ ~s.short[i]) \/ ~o.has[i] ELSE (o.has[i] \/ raw <= tol) /\ (~o.has[i] \/ raw >= -tol))
            /\ Why(<<"runaway power of cell", i>>, IF s.open[i] /\ ~s.short[i] /\ s.hot[i][1] THEN TRUE
                      ELSE IF ~Heating(s, i) \/ ~o.has[i] THEN o.p[i] = 0 \/ (o.p[i] = 1 /\ s.hot[i][1] /\ ~s.short[i])
                      ELSE Within(o.p[i], want, 3 + (IF s.pw0[i] = 0 THEN want \div 100 + (2000 * want) \div Max(1, Energy(s, i)) + (IF s.soc0[i] < 2000 THEN want ELSE 0) ELSE want \div 50000)))
    /\ Outputs(s, o)
Absorb(s, o) == IF s.act # "Step" THEN s
    ELSE [s EXCEPT !.soc = o.cell, !.has = o.has, !.p = o.p, !.inc = [i \in Cells(s) |-> IF s.pw0[i] = 0 THEN o.p[i] ELSE @[i]]]

(* ---- what the battery promises *)
Inv(s) == \A i \in Cells(s) : s.soc[i] >= 0 /\ s.soc[i] <= FULL /\ (s.p[i] > 1 => s.has[i])
StepOK(s, in, t) ==
    t.act # "Step" \/
    LET live == {i \in Cells(t) : ~Dead(t, i) /\ CapOf(t, i) > 0}
        held(soc) == Sum([i \in Cells(t) |-> IF i \in live THEN MD(soc[i], CapOf(t, i), 10000) ELSE 0], t.c[1])        \* 0.01 mAh
        moved == t.flux * t.c[11]                                                                                      \* 0.01 mAh
        hot == \E i \in Cells(t) : Heating(t, i)
        limits == \E i \in live : t.soc[i] \in {0, FULL}
    IN /\ \A i \in Cells(t) : Dead(t, i) => t.soc[i] \in {0, s.soc[i]}
       /\ t.flux > 0 => \A i \in Cells(t) : t.soc[i] <= s.soc[i]
       /\ (t.flux < 0 /\ ~hot) => \A i \in live : t.soc[i] >= s.soc[i]
       /\ (live # {} /\ ~hot /\ ~limits /\ Carrying(t, t.flux) = live) => Within(held(s.soc) - held(t.soc), moved, 4 * t.c[1] + 2 + Abs(moved) \div 1000)      \* no charge is made or lost
       /\ (t.flux < 0 /\ live # {} /\ Abs(t.flux) > 10) => \E i \in live : t.soc[i] > s.soc[i] \/ s.soc[i] = FULL \/ t.hot[i][1]                                 \* an empty battery takes charge
       /\ (~t.away[1] /\ (s.rcell > 1 \/ s.rtimer > 0)) => \A i \in Cells(t) : ~t.hot[i][1]

Configs == CfgSet
St(v) == <<"Step", <<0, v>>>>
Vs(s) == LET v == IF B(s.c[2]) THEN s.c[8] ELSE s.c[1] * s.c[8] IN {0, v \div 2, v, v + v \div 2}
Inputs(s) == IF s.steps >= MaxSteps THEN {}
    ELSE {<<St(v)>> : v \in Vs(s)}
         \cup {<<<<n, <<1, f>>>>, St(v)>> : n \in {"Open", "Short"}, f \in 0..1, v \in {0, s.c[1] * s.c[9] + 1000}}
         \cup {<<<<"Cap", <<1, f, 300>>>>, St(0)>> : f \in 0..1}
         \cup {<<<<"Runaway", <<f, 360, k>>>>, St(s.c[8])>> : f \in 0..1, k \in {0, 10, 15}}
         \cup {<<<<"Hot", <<s.c[1], f, 360>>>>, St(s.c[8])>> : f \in 0..1}
         \cup {<<<<"Block", <<f, 50>>>>, St(0)>> : f \in 0..1}
         \cup {<<<<"Restart", <<>>>>, St(0)>>}
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0]
=============================================================================
