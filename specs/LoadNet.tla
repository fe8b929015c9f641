------------------------------ MODULE LoadNet ------------------------------
(* Load switches in a network (aspects/electrical/Switch: SwitchElect, GunnsElectUserLoadSwitch, GunnsElectUserLoadSwitch2;
   aspects/electrical/UserLoad; GunnsShortUtil): a supply of E volts feeds bus 0; a breaker M joins it to bus 1; on bus 1 are two
   load switches, A (variant 2) and B, each with a resistive and a constant power load that have fuses, and C (variant 2, no loads),
   which feeds bus 2, where a conductor and a battery are.

   The switches are those of Switch2.tla (A, C) and SwitchUtil.tla (B, M). This module says in what order the solutions of one major step
   are judged, so what blows and trips, and what the loads take.

   Predictions are in 0.01 V and 0.01 A, conductances in 0.0001 S. Where a decision is too close to call (amb), only what holds in any
   case is required, and the state is taken over from what is observed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps, MaxTotal

New == INSTANCE Switch2 WITH CfgSet <- {}, MaxEvents <- 0, Volts <- {}, Amps <- {}, Steps <- {}
Old == INSTANCE SwitchUtil WITH CfgSet <- {}, MaxEvents <- 0, Amps <- {}, Steps <- {}

RES == 0  POW == 1             \* kinds of loads
OFF == 0  ON == 1  STBY == 2   \* their modes
GSW == 500000                  \* a closed switch
GMAIN == 83333                 \* supply and breaker in series
GSUP == 100000
GBAT == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Mul(g, v) == (g \div 100) * (v \div 100) + ((g \div 100) * (v % 100)) \div 100 + ((g % 100) * v) \div 10000   \* = g * v / 10000
Series(g) == IF g > 400000 THEN GSW - 250000000 \div ((g + GSW) \div 1000)      \* with a closed switch
             ELSE g - ((g \div 10) * (g \div 10)) \div ((g + GSW) \div 100)

(* cfg = <<1 E, 2 battery, 3 M over-current, 4 M reverse, 5 M priority, 6 A under-voltage, 7 its reset, 8 over-voltage, 9 its reset,
           10 over-current, 11 reverse, 12 priority, 13 B over-current, 14 B priority (0: no protection), 15 C over-current, 16 reverse,
           17 priority, 18 load 1 ohms, 19 fuse, 20 load 2 watts, 21 fuse, 22 load 3 ohms, 23 fuse, 24 load 4 watts, 25 fuse,
           26 loads' under-voltage, 27 load 3's duty period (1/8 s, 0 none), 28 duty fraction of it, 29 load on bus 2 (0.1 S)>>;
   currents in 0.1 A *)
Load(kind, x, fuse, uv) == [kind |-> kind, x |-> x, fuse |-> fuse * 10, uv |-> uv * 100, mode |-> ON, blown |-> FALSE, blow |-> FALSE,
                            mi |-> <<0, 0>>, mp |-> <<0, 0>>, mg |-> <<0, 0>>]
OldSw(pos, neg, prio) == [Old!S0(<<0, 1, IF prio > 0 THEN 1 ELSE 0, IF prio > 1 THEN 1 ELSE 0, IF prio > 1 THEN 1 ELSE 0, Max(prio, 1), 1, pos, neg>>)
                          EXCEPT !.res = 0, !.active = 0]
S0(c) == [ e |-> c[1], eb |-> c[2], gd |-> c[29] * 1000, gb |-> IF c[2] > 0 THEN GBAT ELSE 0,
           m |-> OldSw(c[3] * 10, c[4] * 10, c[5]), b |-> OldSw(c[13] * 10, -1000000, c[14]),
           a |-> New!S0(<<1, 1, 0, c[6] * 100, c[7] * 100, c[8] * 100, c[9] * 100, c[10] * 10, c[11] * 10, c[12], 1>>),
           c |-> New!S0(<<1, 1, 0, 0, 0, 0, 0, c[15] * 10, c[16] * 10, c[17], 1>>),
           l |-> << Load(RES, c[18], c[19], c[26]), Load(POW, c[20], c[21], c[26]), Load(RES, c[22], c[23], c[26]), Load(POW, c[24], c[25], c[26]) >>,
           duty |-> <<c[27], c[28], 0>>,                     \* period, part of it that is on, time
           ov |-> [k \in {"A", "B", "C"} |-> <<0, 0>>],      \* override of the loads' voltage
           sh |-> [k \in {"A", "B"} |-> <<0, 0>>],           \* short: 1 resistance 0.1 ohm, 2 constant power
           v1 |-> 0, \* the last solution
           elec |-> <<>>, amb |-> FALSE, failed |-> FALSE, events |-> FALSE, sol |-> <<>>, on |-> <<>>, stepped |-> FALSE, n |-> 0, total |-> 0 ]
Of(k) == IF k = "A" THEN {1, 2} ELSE {3, 4}

\* What a load is, at the voltage v it is supplied with: conductance.
At(l, v) == IF l.mg[1] = 1 THEN l.mg[2] * 100 ELSE IF l.blown THEN 0 ELSE v
Valid(l, v) == At(l, v) > l.uv
Watts(x, v) == IF x = 0 THEN 0 ELSE (((x * 100000) \div v) * 1000) \div v
G(l, v0) == LET v == At(l, v0) IN
    IF ~Valid(l, v0) THEN 0
    ELSE IF l.mi[1] = 1 THEN (l.mi[2] * 100000) \div v
    ELSE IF l.mp[1] = 1 THEN Watts(l.mp[2], v)
    ELSE CASE l.mode = OFF -> 0
           [] l.kind = RES -> 10000 \div (l.x * (IF l.mode = STBY THEN 4 ELSE 1))
           [] OTHER -> Watts(l.x \div (IF l.mode = STBY THEN 4 ELSE 1), v)
Short(x, v) == CASE x[1] = 1 -> 100000 \div x[2] [] x[1] = 2 -> (IF v < 200 THEN 50000 ELSE Watts(x[2], v)) [] OTHER -> 0

\* One solution of the network: w is the state with all switches updated, v1 the last voltage of bus 1.
LoadsV(w, k, v1, i) == IF w.ov[k][1] = 1 THEN w.ov[k][2] * 100
                    ELSE IF ~(IF k = "A" THEN w.a.pos ELSE w.b.closed) THEN 0 ELSE Max(0, v1 - i \div 50)
Loads(w, k, vl) == LET q == IF k = "A" THEN <<1, 2>> ELSE <<3, 4>> IN G(w.l[q[1]], vl) + G(w.l[q[2]], vl) + (IF w.ov[k][1] = 1 THEN 0 ELSE Short(w.sh[k], vl))
Pass(w, o) ==
    LET vA == LoadsV(w, "A", o.v1, o.ia)  vB == LoadsV(w, "B", o.v1, o.ib)
        gA == IF w.a.pos /\ w.ov["A"][1] = 0 THEN Series(Loads(w, "A", vA)) ELSE 0
        gB == IF w.b.closed /\ w.ov["B"][1] = 0 THEN Series(Loads(w, "B", vB)) ELSE 0
        g2 == w.gd + w.gb
        v2o == (w.gb * w.eb * 100) \div g2
        gC == IF w.c.pos /\ w.ov["C"][1] = 0 THEN Series(g2) ELSE 0
        gM == IF w.m.closed THEN GMAIN ELSE 0
        tot == gM + gA + gB + gC
        v1 == IF tot = 0 THEN 0 ELSE (gM * (w.e * 100) + gC * v2o) \div tot
    IN [v1 |-> v1, ia |-> Mul(gA, v1), ib |-> Mul(gB, v1), ic |-> IF v1 >= v2o THEN Mul(gC, v1 - v2o) ELSE -Mul(gC, v2o - v1),
        im |-> IF w.e * 100 >= v1 THEN Mul(gM, w.e * 100 - v1) ELSE -Mul(gM, v1 - w.e * 100), va |-> vA, vb |-> vB, float |-> tot < 5]
RECURSIVE Iterate(_, _, _)
Iterate(w, o, n) == LET p == TLCEval(Pass(w, o)) IN IF n = 0 THEN [p EXCEPT !.v1 = -1] ELSE IF Abs(p.v1 - o.v1) <= 1 /\ Abs(p.ia - o.ia) <= 1 /\ Abs(p.ib - o.ib) <= 1 THEN p ELSE Iterate(w, p, n - 1)

Band(x) == Abs(x) \div 40 + 8
Near(x, y) == Abs(x - y) <= Band(Max(Abs(x), Abs(y)))
NewClose(x, i, v) == \E t \in 1..6 : x.trip[t].lim # 0 /\ Near(IF t >= 5 THEN i ELSE v, x.trip[t].lim)
OldClose(x, i) == x.prot /\ x.closed /\ (Near(i, x.act[1]) \/ Near(i, x.act[2]))
\* The voltage a load's fuse sees, and its current.
FuseV(w, j, o) == IF w.ov[IF j <= 2 THEN "A" ELSE "B"][1] = 1 THEN 0 ELSE o.v1     \* the fuses are not tested while overridden
LV(j, o) == IF j <= 2 THEN o.va ELSE o.vb
FuseI(w, j, o) == Mul(G(w.l[j], LV(j, o)), FuseV(w, j, o))
\* Constant power loads that come near what the supply can carry have no certain solution.
Power(w, j, v) == IF w.l[j].kind = POW \/ w.l[j].mp[1] = 1 THEN G(w.l[j], v) ELSE 0
Drawn(w, o) == (IF w.ov["A"][1] = 0 /\ w.a.pos THEN Power(w, 1, o.va) + Power(w, 2, o.va) + (IF w.sh["A"][1] = 2 THEN Short(w.sh["A"], o.va) ELSE 0) ELSE 0)
             + (IF w.ov["B"][1] = 0 /\ w.b.closed THEN Power(w, 3, o.vb) + Power(w, 4, o.vb) + (IF w.sh["B"][1] = 2 THEN Short(w.sh["B"], o.vb) ELSE 0) ELSE 0)
Source(w) == (IF w.m.closed THEN GMAIN ELSE 0) + (IF w.c.pos THEN Series(w.gd + w.gb) ELSE 0)
Close(w, o) ==
    \/ Drawn(w, o) > Source(w) \div 3
    \/ o.v1 < 0 \/ o.float
    \/ (w.sh["A"][1] = 2 /\ w.a.pos /\ (Short(w.sh["A"], o.va) > 10000 \/ Short(w.sh["A"], w.v1) > 10000)) \/ (w.sh["B"][1] = 2 /\ w.b.closed /\ (Short(w.sh["B"], o.vb) > 10000 \/ Short(w.sh["B"], w.v1) > 10000))   \* pulls its own supply down
    \/ NewClose(w.a, o.ia, o.v1) \/ NewClose(w.c, o.ic, o.v1) \/ OldClose(w.m, o.im) \/ OldClose(w.b, o.ib)
    \/ \E j \in 1..4 : \/ w.l[j].fuse > 0 /\ ~w.l[j].blown /\ (Near(FuseI(w, j, o), w.l[j].fuse)
                           \/ ((w.l[j].kind = POW \/ w.l[j].mi[1] = 1 \/ w.l[j].mp[1] = 1) /\ Abs(FuseI(w, j, o) - w.l[j].fuse) < w.l[j].fuse \div 8))
                       \/ w.l[j].mg[1] = 0 /\ ~w.l[j].blown /\ Near(LV(j, o), w.l[j].uv)
Blows(w, o, k) == LET q == {j \in Of(k) : w.l[j].fuse > 0 /\ ~w.l[j].blown /\ FuseI(w, j, o) > w.l[j].fuse}
                  IN IF q = {} THEN 0 ELSE CHOOSE j \in q : \A i \in q : j <= i

\* One that is overridden is updated at the start of the step only.
Updated(w, start) ==
    [w EXCEPT !.a = IF w.ov["A"][1] = 0 THEN New!Update(@) ELSE IF start THEN New!Update([@ EXCEPT !.cmd = FALSE]) ELSE @,
              !.c = IF w.ov["C"][1] = 0 THEN New!Update(@) ELSE IF start THEN New!Update([@ EXCEPT !.cmd = FALSE]) ELSE @,
              !.b = IF w.ov["B"][1] = 0 THEN Old!Update(@, TRUE) ELSE IF start THEN Old!Update([@ EXCEPT !.cmd = FALSE], TRUE) ELSE @,
              !.m = Old!Update(@, TRUE)]
\* Solutions are judged until all accept one: fuses first, then the switches in the order of their priorities.
\* A solution that some switch delays is judged again as it is, even by a switch that has opened since.
RECURSIVE Settle(_, _, _, _)
RECURSIVE Judge(_, _, _, _, _)
Judge(w, o, k, on, fuel) ==
    LET fA == IF k = 1 THEN Blows(w, o, "A") ELSE 0
        fB == IF k = 1 THEN Blows(w, o, "B") ELSE 0
        a == IF fA > 0 \/ w.ov["A"][1] = 1 THEN w.a ELSE New!Trips(w.a, o.ia, o.v1, k)
        c == IF w.ov["C"][1] = 1 THEN w.c ELSE New!Trips(w.c, o.ic, o.v1, k)
        b == IF fB > 0 \/ w.ov["B"][1] = 1 THEN w.b ELSE Old!Flow(w.b, <<o.ib, o.ib, o.v1, k, 0>>)
        m == Old!Flow(w.m, <<o.im, o.im, 0, k, 0>>)
        t == [w EXCEPT !.a = a, !.b = b, !.c = c, !.m = m, !.l = [j \in 1..4 |-> IF j \in {fA, fB} THEN [w.l[j] EXCEPT !.blown = TRUE] ELSE w.l[j]]]
        reject == fA > 0 \/ fB > 0 \/ (fA = 0 /\ w.ov["A"][1] = 0 /\ a.just) \/ (w.ov["C"][1] = 0 /\ c.just) \/ (fB = 0 /\ w.ov["B"][1] = 0 /\ b.just) \/ m.just
        delay == (w.ov["A"][1] = 0 /\ a.wait) \/ (w.ov["B"][1] = 0 /\ b.wait) \/ (w.ov["C"][1] = 0 /\ c.wait) \/ m.wait
    IN IF fuel = 0 \/ Close(w, o) THEN [w EXCEPT !.amb = TRUE, !.sol = o]
       ELSE IF reject THEN Settle([t EXCEPT !.events = TRUE], o, fuel - 1, FALSE)
       ELSE IF delay THEN Judge(t, o, k + 1, on, fuel - 1)
       ELSE [t EXCEPT !.sol = o, !.on = on]
Settle(w0, o0, fuel, start) ==
    LET w == TLCEval(Updated(w0, start))
    IN Judge(w, TLCEval(Iterate(w, o0, 30)), 1, <<w.a.pos /\ w.ov["A"][1] = 0, w.b.closed /\ w.ov["B"][1] = 0, w.c.pos /\ w.ov["C"][1] = 0, w.m.closed>>, fuel)

\* What the solution depends on. While it is as it was, the first solution of a step may be taken, and the switches are updated once in
\* it; otherwise they are updated more often, which matters to one whose trips are reset: it closes the next time.
Elec(w) == <<w.e, w.eb, w.gd, w.a.pos, w.b.closed, w.c.pos, w.m.closed, w.ov, w.sh,
             [j \in 1..4 |-> <<w.l[j].mode, w.l[j].blown, w.l[j].mi, w.l[j].mp, w.l[j].mg>>]>>
Pos(w) == <<w.a.pos, w.b.closed, w.c.pos, w.m.closed>>
First(w) ==
    LET u == TLCEval(Updated(w, TRUE))  o0 == [v1 |-> w.v1, ia |-> 0, ib |-> 0]
    IN IF w.failed THEN [u EXCEPT !.amb = TRUE, !.sol = Pass(u, o0)]       \* may converge upon what it failed with
       ELSE IF Pos(Updated(u, FALSE)) = Pos(u) THEN Settle(w, o0, 25, TRUE)
       ELSE IF Elec(u) = w.elec \/ w.elec = <<>> \/ Abs(Iterate(u, o0, 30).v1 - w.v1) < 20 THEN [u EXCEPT !.amb = TRUE, !.sol = Pass(u, o0)]
       ELSE Settle(u, o0, 25, FALSE)
Step(s) ==
    LET p == s.duty[1]
        t == IF p = 0 THEN 0 ELSE IF s.duty[3] + 1 > p THEN 0 ELSE s.duty[3] + 1
        w == [s EXCEPT !.duty[3] = t, !.amb = FALSE, !.events = FALSE,
                       !.l = [j \in 1..4 |-> [s.l[j] EXCEPT !.blown = @ \/ s.l[j].blow, !.mode = IF j = 3 /\ p > 0 THEN (IF t > s.duty[2] THEN OFF ELSE ON) ELSE @]]]
        t2 == TLCEval(First(w))
    IN [t2 EXCEPT !.stepped = TRUE, !.n = @ + 1, !.elec = IF t2.amb THEN <<>> ELSE Elec(Updated(t2, FALSE))]

Sw(s, k) == CASE k = 0 -> s.a [] k = 1 -> s.b [] k = 2 -> s.c [] OTHER -> s.m
Put(s, k, x) == CASE k = 0 -> [s EXCEPT !.a = x] [] k = 1 -> [s EXCEPT !.b = x] [] k = 2 -> [s EXCEPT !.c = x] [] OTHER -> [s EXCEPT !.m = x]
IsNew(k) == k \in {0, 2}
Name(k) == <<"A", "B", "C">>[k + 1]
SwApply(s, k, n, a) == Put(s, k, IF IsNew(k) THEN New!Apply(Sw(s, k), n, a) ELSE Old!Apply(Sw(s, k), n, a))
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.stepped = FALSE, !.total = @ + 1] IN
    CASE n = "Supply"   -> [s EXCEPT !.e = a[1]]
      [] n = "Battery"  -> [s EXCEPT !.eb = a[1], !.gb = IF a[1] > 0 THEN GBAT ELSE 0]
      [] n = "Cmd"      -> SwApply(s, a[1], "Cmd", <<a[2]>>)
      [] n = "Reset"    -> SwApply(s, a[1], "Reset", <<>>)
      [] n = "Fail"     -> SwApply(s, a[1], "Malf", <<a[2], a[3]>>)
      [] n = "External" -> SwApply(s, a[1], "External", <<a[2]>>)
      [] n = "Mode"     -> [s EXCEPT !.l[a[1]].mode = a[2]]
      [] n = "Blow"     -> [s EXCEPT !.l[a[1]].blow = a[2] = 1]
      [] n = "Fuse"     -> [s EXCEPT !.l[a[1]].blown = FALSE]
      [] n = "MalfI"    -> [s EXCEPT !.l[a[1]].mi = <<a[2], a[3]>>]
      [] n = "MalfP"    -> [s EXCEPT !.l[a[1]].mp = <<a[2], a[3]>>]
      [] n = "Magic"    -> [s EXCEPT !.l[a[1]].mg = <<a[2], a[3]>>]
      [] n = "Override" -> [s EXCEPT !.ov[Name(a[1])] = <<a[2], a[3]>>]
      [] n = "Short"    -> [s EXCEPT !.sh[Name(a[1])] = <<a[2], a[3]>>]
      [] n = "Restart"  -> [s EXCEPT !.elec = <<>>]
      [] n = "Step"     -> Step(s)

ObsSw(k, x) == IF k \in {0, 2} THEN [pos |-> x.pos, cmd |-> x.cmd, t |-> {i \in 1..6 : x.trip[i].on}]
               ELSE [pos |-> x.closed, cmd |-> x.cmd, t |-> (IF x.pos THEN {1} ELSE {}) \cup (IF x.neg THEN {2} ELSE {}) \cup (IF x.ext THEN {3} ELSE {})]
Obs(s) == [sol |-> s.sol, amb |-> s.amb, sw |-> [k \in 0..3 |-> ObsSw(k, Sw(s, k))], blown |-> {j \in 1..4 : s.l[j].blown}]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Within(x, y, tol) == Abs(x - y) <= tol
\* g in 1e-6 S, v in 0.001 V: 0.001 A
MulX(g, v) == (g \div 1000) * (v \div 1000) + ((g \div 1000) * (v % 1000)) \div 1000 + ((g % 1000) * v) \div 1000000
Amps(x, v) == IF x <= 2000 THEN (x * 1000000) \div v ELSE ((x * 100000) \div v) * 10
\* Observed: 0.001 V, 0.001 A, 0.01 W, 1e-6 S
Match(s, o) ==
    ~s.stepped \/
    LET d == IF o.events \/ s.events \/ s.failed THEN o.v1 ELSE 30 + Abs(o.fa - o.pfa) \div 40   dB == IF o.events \/ s.events \/ s.failed THEN o.v1 ELSE 30 + Abs(o.fb - o.pfb) \div 40
        vA == o.v1 - o.fa \div 50   vB == o.v1 - o.fb \div 50
        LoadOk(j) ==
            LET l == s.l[j]  q == o.l[j]  vs == IF j <= 2 THEN o.va ELSE o.vb
                v == IF l.mg[1] = 1 THEN l.mg[2] * 1000 ELSE IF q.blown THEN 0 ELSE vs
                valid == v > l.uv * 10
                tol(x) == 3 + Abs(x) \div 500
            IN /\ Why(<<"valid", j>>, q.valid = valid)
               /\ Why(<<"off", j>>, (~valid \/ (l.mi[1] = 0 /\ l.mp[1] = 0 /\ l.mode = OFF)) => q.i = 0 /\ q.p = 0 /\ q.g = 0)
               /\ valid =>
                  LET i == CASE l.mi[1] = 1 -> l.mi[2] * 100
                             [] l.mp[1] = 1 -> Amps(l.mp[2], v)
                             [] l.mode = OFF -> 0
                             [] l.kind = RES -> v \div (l.x * (IF l.mode = STBY THEN 4 ELSE 1))
                             [] OTHER -> Amps(l.x \div (IF l.mode = STBY THEN 4 ELSE 1), v)
                  IN /\ Why(<<"current", j, i>>, Within(q.i, i, tol(i)))
                     /\ Why(<<"power", j>>, Within(q.p, Mul(q.i, v), 20 + q.p \div 500))
                     /\ Why(<<"conductance", j>>, Within(MulX(q.g, v), i, tol(i)))
        gA == o.l[1].g + o.l[2].g + o.ga   gB == o.l[3].g + o.l[4].g + o.gb
    IN /\ Why("failed to solve", ~o.fail \/ s.amb)
       /\ \/ o.fail
          \/ /\ Why("bus 0", Within(o.fs, o.fm, 3 + Abs(o.fm) \div 5000))
             /\ Why("bus 1", Within(o.fm, (IF s.ov["A"][1] = 1 THEN 0 ELSE o.fa) + (IF s.ov["B"][1] = 1 THEN 0 ELSE o.fb) + (IF s.ov["C"][1] = 1 THEN 0 ELSE o.fc), 5 + Abs(o.fm) \div 5000))
             /\ Why("bus 2", Within(o.fc + o.fbat, o.fd, 5 + o.fd \div 5000))
             /\ Why("flow into bus 1", Within(o.in1, o.out1, 5 + o.in1 \div 5000))
             /\ \A j \in 1..4 : LoadOk(j)
             /\ \/ s.amb
                \/ /\ \A k \in 0..3 : Why(<<"switch", k, ObsSw(k, Sw(s, k))>>, [pos |-> o.sw[k + 1].pos, cmd |-> o.sw[k + 1].cmd, t |-> ToSet(o.sw[k + 1].t)] = ObsSw(k, Sw(s, k)))
                   /\ Why("fuses", \A j \in 1..4 : o.l[j].blown = s.l[j].blown)
                   /\ Why("breaker", IF s.on[4] THEN Within(o.v0 - o.v1, o.fm \div 50, 4) ELSE o.fm = 0)
                   /\ Why("C", s.ov["C"][1] = 1 \/ (IF s.on[3] THEN Within(o.v1 - o.v2, o.fc \div 50, 4) ELSE o.fc = 0))
                   /\ Why("C overridden", s.ov["C"][1] = 1 => Within(o.v2, s.ov["C"][2] * 1000, 2))
                   /\ Why("A", s.ov["A"][1] = 1 \/ (IF s.on[1] THEN gA > 50000000 \/ Within(MulX(gA, vA), o.fa, 5 + o.fa \div 1000 + gA \div 500000) ELSE o.fa = 0))
                   /\ Why("B", s.ov["B"][1] = 1 \/ (IF s.on[2] THEN gB > 50000000 \/ Within(MulX(gB, vB), o.fb, 5 + o.fb \div 1000 + gB \div 500000) ELSE o.fb = 0))
                   /\ Why("A's loads", IF s.ov["A"][1] = 1 THEN o.va = s.ov["A"][2] * 1000 ELSE IF s.on[1] THEN Within(o.va, vA, d) ELSE o.va = 0)
                   /\ Why("B's loads", IF s.ov["B"][1] = 1 THEN o.vb = s.ov["B"][2] * 1000 ELSE IF s.on[2] THEN Within(o.vb, vB, dB) ELSE o.vb = 0)
                   /\ Why("A's power", IF s.ov["A"][1] = 1 THEN Within(o.pa, o.l[1].p + o.l[2].p, 3) ELSE Within(o.pa, Mul(o.fa, vA), 60 + o.pa \div 1000))
                   /\ Why("B's power", IF s.ov["B"][1] = 1 THEN Within(o.pb, o.l[3].p + o.l[4].p, 3) ELSE Within(o.pb, Mul(o.fb, vB), 60 + o.pb \div 1000 + (IF s.b.closed THEN 0 ELSE Mul(o.fb, o.fb \div 50))))
                   /\ Why("short", (s.sh["A"][1] = 1 /\ s.on[1] => Within(o.ga, 10000000 \div s.sh["A"][2], 2))
                                /\ (s.sh["A"][1] = 0 /\ s.on[1] => o.ga = 0))
Absorb(s, o) == IF ~s.stepped THEN s
    ELSE LET v == [s EXCEPT !.v1 = (o.v1 + 5) \div 10, !.failed = o.fail] IN
         IF ~s.amb THEN v
         ELSE LET nw(x, q) == [x EXCEPT !.pos = q.pos, !.cmd = q.cmd, !.wait = q.wait, !.just = q.just, !.trip = [i \in 1..6 |-> [x.trip[i] EXCEPT !.on = i \in ToSet(q.t)]]]
                  old(x, q) == [x EXCEPT !.closed = q.pos, !.cmd = q.cmd, !.wait = q.wait, !.just = q.just, !.pos = 1 \in ToSet(q.t), !.neg = 2 \in ToSet(q.t), !.ext = 3 \in ToSet(q.t)]
              IN [v EXCEPT !.a = nw(@, o.sw[1]), !.b = old(@, o.sw[2]), !.c = nw(@, o.sw[3]), !.m = old(@, o.sw[4]), !.l = [j \in 1..4 |-> [v.l[j] EXCEPT !.blown = o.l[j].blown]]]

Configs == CfgSet
Step1 == <<"Step", <<>>>>
Inputs(s) == IF s.n >= MaxSteps \/ s.amb THEN {}
    ELSE {<<Step1>>}
         \cup {<<<<"Supply", <<x>>>>, Step1>> : x \in {0, 80, 120} \ {s.e}}
         \cup {<<<<"Battery", <<x>>>>, Step1>> : x \in {0, 140} \ {s.eb}}
         \cup {<<<<"Cmd", <<k, IF Sw(s, k).cmd THEN 0 ELSE 1>>>>, Step1>> : k \in 0..3}
         \cup {<<<<"Reset", <<k>>>>, <<"Supply", <<x>>>>, Step1>> : k \in {x \in 0..3 : ObsSw(x, Sw(s, x)).t # {}}, x \in {80, 120} \ {s.e}}
         \cup {<<<<"Fail", <<k, x, 0>>>>, Step1>> : k \in {0, 3}, x \in 0..1}
         \cup {<<<<"Mode", <<j, x>>>>, Step1>> : j \in 1..2, x \in {OFF, ON}}
         \cup {<<<<"MalfP", <<j, x, 6000>>>>, Step1>> : j \in {2, 4}, x \in 0..1}
         \cup {<<<<"Short", <<k, x, 20>>>>, Step1>> : k \in 0..1, x \in 0..1}
         \cup {<<<<"Fuse", <<j>>>>, Step1>> : j \in {x \in 1..4 : s.l[x].blown}}
         \cup {<<<<"Override", <<k, 1 - s.ov[Name(k)][1], 100>>>>, Step1>> : k \in {0, 2}}
Bound(s) == TRUE
View(s) == [s EXCEPT !.total = 0, !.a.n = 0, !.b.n = 0, !.c.n = 0, !.m.n = 0]
Inv(s) == \/ ~s.stepped \/ s.amb
          \/ \* every protection that is on is satisfied by the solution the step ends with
             /\ (s.on[4] /\ s.m.prot /\ ~s.m.mClosed /\ ~s.m.ext) => s.sol.im <= s.m.act[1] /\ s.sol.im >= s.m.act[2]
             /\ (s.on[2] /\ s.b.prot /\ ~s.b.mClosed /\ ~s.b.ext) => s.sol.ib <= s.b.act[1]
             /\ (s.on[1] /\ ~s.a.closed /\ s.a.prio > 0) => (s.a.trip[5].lim = 0 \/ s.sol.ia <= s.a.trip[5].lim) /\ (s.a.trip[1].lim = 0 \/ s.sol.v1 >= s.a.trip[1].lim)
             /\ (s.on[3] /\ ~s.c.closed /\ s.c.prio > 0) => (s.c.trip[5].lim = 0 \/ s.sol.ic <= s.c.trip[5].lim) /\ (s.c.trip[6].lim = 0 \/ s.sol.ic >= s.c.trip[6].lim)
             /\ \A j \in 1..4 : (s.l[j].fuse > 0 /\ ~s.l[j].blown) => FuseI(s, j, s.sol) <= s.l[j].fuse
StepOK(s, in, t) ==
    \/ in[1] # "Step" \/ t.amb
    \/ \* a fuse that blew stays so
       \A j \in 1..4 : s.l[j].blown => t.l[j].blown
=============================================================================
