-------------------------------- MODULE Tank --------------------------------
(* C30: a tank or a balloon, joined to another tank by a pipe that may be opened, and the edits of its contents.
   Temperatures in 1/1000 K, pressures in 1/10 Pa, volumes in ml, masses in 1e-8 kg, time in ms.
   The contents are taken over from the code after each event (Absorb); what an edit does to them is not. *)
EXTENDS Integers, Sequences, Why
CONSTANTS CfgSet, MaxSteps, Wide
B(n) == n = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Within(x, y, t) == Abs(x - y) <= t
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Sum(f) == f[1] + f[2] + f[3]
G == 1..3

Balloon(c) == c[1] = 1
Gain(c) == c[15]
Area(c) == c[17]
Radius(c) == c[18]
Inflate(c) == c[20]             \* l/kPa
Largest(c) == c[21] * 1000

(* ---- what is on *)
On(q) == q.etp \/ q.etpp
(* a balloon's volume is edited by its pressure, which an edit of its pressure determines *)
Per(x, scale) == ((x \div scale) * 1000) + (((x % scale) * 1000) \div scale)
Norm(q) ==
    IF ~Balloon(q.c) THEN q
    ELSE IF On(q) THEN [q EXCEPT !.ev = FALSE]
    ELSE IF q.ev THEN [q EXCEPT !.ev = FALSE, !.etp = TRUE, !.vT = q.t, !.vP = Per((Min(q.vV, Largest(q.c)) * 10) \div Inflate(q.c), q.scale)]
    ELSE q
Bulge(c, p) == Max(0, Min((p \div 10) * Inflate(c), Largest(c)))     \* a balloon's volume at pressure p
Volume(q, p) == IF q.stuck THEN q.v ELSE Max(0, Min((p \div 100) * ((Inflate(q.c) * q.scale) \div 100), Largest(q.c)))

(* ---- partial pressures at set rates *)
Rated(q, i) == q.er[i] /\ q.rate[i] # 0
Delta(q, i, dt) == Abs(q.rate[i]) * dt
Gap(q, i) == Abs(q.vpp[i] - q.says[i])
Moved(q, i, dt) == q.pp[i] + (IF q.says[i] < q.vpp[i] THEN Delta(q, i, dt) ELSE -Delta(q, i, dt))
Rates(q, dt, stop) == [i \in G |-> IF Rated(q, i) /\ ~stop[i] THEN Moved(q, i, dt) ELSE q.pp[i]]
Stops(q, dt) == [i \in G |-> q.er[i] /\ (q.rate[i] = 0 \/ Gap(q, i) <= Delta(q, i, dt))]

(* ---- temperature and pressure *)
TT(q) == IF q.vT <= 0 THEN q.t ELSE q.vT
Aim0(q) == IF q.etp THEN q.vP ELSE Sum(q.vpp)
Fall(q) == Aim0(q) <= 0
Aim(q, pp) == IF Fall(q) THEN Sum(pp) ELSE Aim0(q)
Mixed(x, p) == [i \in G |-> ((p \div 1000) * (x[i] \div 1000))]
Fractions(pp) == [i \in G |-> IF Sum(pp) < 10000 THEN 0 ELSE ((pp[i] \div 10) * 1000) \div (Sum(pp) \div 10000)]
Target(q, pp, x) == IF ~q.etp THEN q.vpp ELSE Mixed(x, Aim(q, pp))

Step(q0, dt) ==
    LET q == Norm(q0)
        stop == Stops(q, dt)
        pp == Rates(q, dt, stop)
        x == IF pp = q.pp THEN q.x ELSE Fractions(pp)
        p == IF q.held THEN q.aim ELSE Sum(pp)
        aim == Aim(q, pp)
        done == On(q) /\ TT(q) = q.t /\ aim = p
        perform == On(q) /\ ~done
        t == IF perform \/ (q.et /\ ~On(q)) THEN TT(q) ELSE q.t
        pp2 == IF ~perform \/ Fall(q) THEN pp ELSE Target(q, pp, x)
    IN [q EXCEPT !.t = t, !.pp = pp2, !.says = pp2, !.p = p, !.cp = Sum(pp2), !.x = IF perform /\ ~q.etp /\ ~Fall(q) THEN Fractions(pp2) ELSE x,
                 !.v = IF Balloon(q.c) THEN Volume(q, p) ELSE IF q.ev THEN q.vV ELSE @, !.ev = FALSE,
                 !.et = @ /\ On(q), !.etp = @ /\ ~done, !.etpp = @ /\ ~done, !.held = perform, !.aim = IF perform THEN aim ELSE @,
                 !.er = [i \in G |-> q.er[i] /\ ~stop[i]],
                 !.vT = IF On(q) \/ q.et THEN TT(q) ELSE @, !.vP = IF On(q) THEN aim ELSE @, !.vpp = IF On(q) /\ Fall(q) THEN pp ELSE @]

(* ---- the world *)
NoPre == [n |-> -1]
S0(c) ==
    LET p == c[4] * 1000 IN
    [c |-> c, n |-> 0, act |-> "", open |-> FALSE, opened |-> FALSE, flowed |-> FALSE, et |-> FALSE, etp |-> FALSE, etpp |-> FALSE, er |-> <<FALSE, FALSE, FALSE>>, ev |-> FALSE,
     vT |-> 0, vP |-> 0, vpp |-> <<0, 0, 0>>, rate |-> <<0, 0, 0>>, vV |-> 0, t |-> c[3] * 1000, pp |-> <<p \div 2, p \div 2, 0>>, says |-> <<p \div 2, p \div 2, 0>>, x |-> <<500000, 500000, 0>>,
     p |-> p, cp |-> p, v |-> IF Balloon(c) THEN Bulge(c, p) ELSE c[2] * 1000, m |-> <<0, 0, 0>>, nn |-> <<0, 0, 0>>, tc |-> 0, tcn |-> 0, k |-> 0, dpdt |-> 0, shell |-> c[19], held |-> FALSE, aim |-> 0, first |-> TRUE, stuck |-> FALSE, scale |-> 1000,
     pre |-> NoPre, steps |-> 0]
Without(s) == [s EXCEPT !.pre = NoPre]
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n, !.pre = Without(s0)] IN
    CASE n = "Pipe"     -> [s EXCEPT !.open = a[1] > 0, !.opened = @ \/ a[1] > 0]
      [] n = "EditT"    -> [s EXCEPT !.et = B(a[1]), !.vT = IF B(a[1]) THEN a[2] * 1000 ELSE @]
      [] n = "EditTP"   -> [s EXCEPT !.etp = B(a[1]), !.vT = IF B(a[1]) THEN a[2] * 1000 ELSE @, !.vP = IF B(a[1]) THEN a[3] * 1000 ELSE @]
      [] n = "EditTPP"  -> [s EXCEPT !.etpp = B(a[1]), !.vT = IF B(a[1]) /\ a[2] > 0 THEN a[2] * 1000 ELSE @, !.vpp = IF B(a[1]) THEN <<a[3] * 1000, a[4] * 1000, a[5] * 1000>> ELSE @]
      [] n = "EditRate" -> [s EXCEPT !.er[a[1] + 1] = B(a[2]), !.vpp[a[1] + 1] = IF B(a[2]) THEN a[3] * 1000 ELSE @, !.rate[a[1] + 1] = IF B(a[2]) THEN a[4] ELSE @]
      [] n = "EditV"    -> [s EXCEPT !.ev = B(a[1]), !.vV = IF B(a[1]) THEN a[2] * 1000 ELSE @]
      [] n = "Shell"    -> [s EXCEPT !.shell = a[1]]
      [] n = "Stuck"    -> [s EXCEPT !.stuck = B(a[1])]
      [] n = "Scale"    -> [s EXCEPT !.scale = IF B(a[1]) THEN a[2] ELSE 1000]
      [] n = "Restart"  -> [s EXCEPT !.et = FALSE, !.etp = FALSE, !.etpp = FALSE, !.er = <<FALSE, FALSE, FALSE>>, !.ev = FALSE, !.vV = 0]
      [] n = "Step"     -> [Step(s, a[1]) EXCEPT !.steps = @ + 1, !.pre = [Norm(Without(s0)) EXCEPT !.steps = a[1]], !.first = FALSE, !.flowed = s.open]

Obs(s) == [t |-> s.t]

(* ---- the code's event o *)
(* mass of a gas at partial pressure pp in volume v at temperature t *)
Weight == <<3369, 3849, 5293>>
Moles(pp, v, t) == ((pp \div 100) * (v \div 1000)) \div (t \div 1000)
Ideal(i, pp, v, t) == Moles(pp, v, t) * Weight[i]
Slack(i, m, v, t) == (m \div 200) + Weight[i] * (((v \div 1000) \div (t \div 1000)) + 3)
Same(f, g, e) == \A i \in G : Within(f[i], g[i], e)
Heat(q) == ((q.k \div 1000) * ((q.shell * 1000 - q.t) \div 10) * Area(q.c)) \div (Radius(q.c) * 100)
Idle(q) == ~q.et /\ ~On(q) /\ ~q.ev /\ \A i \in G : ~q.er[i]
Match(s, o) ==
    LET q == s.pre
        c == s.c
        dt == q.steps
        on == On(q)
        same == on /\ q.held /\ q.aim = Aim(q, q.pp) /\ TT(q) = q.t        \* the edit has been made and not changed since
        done == on /\ ~o.etp /\ ~o.etpp
        perform == on /\ ~done
        edits == q.et /\ ~on
        pp == Rates(q, dt, [i \in G |-> ~o.er[i]])
        pure == ~Balloon(c) /\ ~s.opened /\ (Area(c) = 0 \/ Radius(c) = 0)
        warn == (IF (on \/ edits) /\ q.vT <= 0 THEN 1 ELSE 0) + (IF on /\ Fall(q) THEN 1 ELSE 0)
                + (IF q.er[1] /\ q.rate[1] = 0 THEN 1 ELSE 0) + (IF q.er[2] /\ q.rate[2] = 0 THEN 1 ELSE 0) + (IF q.er[3] /\ q.rate[3] = 0 THEN 1 ELSE 0)
    IN
    /\ Why("no error", ~o.threw)
    /\ s.act \in {"Step", ""} \/
       /\ Why("requests take effect at the next update", Within(o.t, q.t, 0) /\ o.p = q.p /\ o.cp = q.cp /\ o.held = q.held /\ Same(o.n, q.nn, 0) /\ ((Balloon(c) /\ s.act = "Restart") \/ (o.v = q.v /\ Same(o.m, q.m, 0) /\ o.tc = q.tc)))
       /\ Why("requests", o.et = s.et /\ o.etp = s.etp /\ o.etpp = s.etpp /\ o.ev = s.ev /\ \A i \in G : o.er[i] = s.er[i])
       /\ Why("no warning", o.warnings = 0)
    /\ s.act = "Step" =>
       \* the edits' life
       /\ Why("temperature edit is made once", o.et = (q.et /\ on))
       /\ Why("volume edit is made once", ~o.ev)
       /\ Why("edit ends at its targets", done => (Within(q.t, TT(q), 1) /\ Within(o.p, Aim(q, pp), IF q.scale = 1000 THEN 1 ELSE 11)))
       /\ Why("edit ends", (same /\ ~s.open /\ ~q.flowed /\ c[16] >= 1000 /\ ~Balloon(c)) => done)
       /\ Why("edits end together", done \/ (o.etp = q.etp /\ o.etpp = q.etpp))
       /\ Why("held while edited", o.held = perform)
       /\ Why("held at the pressure", (same /\ q.held) => Within(o.p, q.aim, IF q.scale = 1000 THEN 2 ELSE 12))
       /\ Why("rate edits end within a step of their targets", \A i \in G :
              IF ~q.er[i] THEN ~o.er[i]
              ELSE IF q.rate[i] = 0 THEN ~o.er[i]
              ELSE IF Gap(q, i) > Delta(q, i, dt) + 3 THEN o.er[i]
              ELSE (Gap(q, i) < Delta(q, i, dt) - 3) => ~o.er[i])
       \* their effect
       /\ (perform /\ ~s.open) =>
          /\ Why("edited temperature", Within(o.t, TT(q), 2))
          /\ Why("edited pressure", Within(o.cp, Aim(q, pp), 4 + (Aim(q, pp) \div 100000) + (IF q.scale = 1000 THEN 0 ELSE 10)))
          /\ Why("mixture kept", (q.etp /\ ~Fall(q) /\ \A i \in G : ~q.er[i]) => Same(o.x, q.x, 2))
          /\ Why("edited partial pressures", (~q.etp /\ ~Fall(q)) => Same(o.pp, q.vpp, 4))
       /\ (edits /\ pure) =>
          /\ Why("edited temperature alone", Within(o.t, TT(q), 2))
          /\ Why("pressure kept", Within(o.cp, o.p, 4 + (o.p \div 100000)))
          /\ Why("mixture kept by a temperature edit", Same(o.x, q.x, 2))
       /\ Why("volume", IF Balloon(c) THEN Within(o.v, Volume(q, o.p), 2 + (IF q.stuck THEN o.v \div 100000 ELSE Inflate(c) * 25 + (o.v \div 1000))) ELSE o.v = IF q.ev THEN q.vV ELSE q.v)
       /\ Why("inflation", Balloon(c) => Within(o.inflation \div 100, ((o.v \div 10) * 1000) \div (Largest(c) \div 100), 20))
       /\ (pure /\ ~perform /\ ~edits) =>
          /\ Why("partial pressures at their rates", Same(o.pp, pp, 3 + (o.cp \div 200000)))
          /\ Why("temperature kept", Within(o.t, q.t, 2))
          /\ Why("trace compounds kept", q.ev \/ Within(o.tc, q.tc, 1))
       /\ Why("masses fit", (pure /\ o.v > 0 /\ o.t > 1000) => \A i \in G : Within(o.m[i], Ideal(i, o.pp[i], o.v, o.t), Slack(i, o.m[i], o.v, o.t)))
       /\ Why("trace compounds follow", (pure /\ (perform \/ edits \/ q.ev) /\ o.tc < 20000000 /\ q.tc < 20000000 /\ \A i \in G : ~q.er[i]) =>
              Within((o.tc \div 1000) * (Moles(q.cp, q.v, q.t) \div 10), (q.tc \div 1000) * (Moles(o.cp, o.v, o.t) \div 10), (((o.tc \div 1000) * (Moles(q.cp, q.v, q.t) \div 10)) \div 50) + 2 * ((o.tc + q.tc) \div 1000) + Moles(q.cp, q.v, q.t) + Moles(o.cp, o.v, o.t) + 10))
       \* everything else
       /\ Why("nothing appears or vanishes", (Idle(q) /\ ~q.held /\ Sum(o.m) > 0 /\ Sum(o.n) > 0) => /\ \A i \in G : Within(o.m[i] + o.n[i], q.m[i] + q.nn[i], 6)
                                                          /\ (o.tc > 100000000 \/ Within(o.tc + o.tcn, q.tc + q.tcn, 6)))
       /\ Why("the other tank gets what flows", Sum(o.n) = 0 \/ Sum(o.m) = 0 \/ Within(Sum(o.n) - Sum(q.nn), (o.flow * dt) \div 100, 6 + (dt \div 100)))
       /\ Why("nothing flows in a closed pipe", s.open \/ (o.flow = 0 /\ Same(o.n, q.nn, 1) /\ o.tcn = q.tcn))
       /\ Why("closed tank keeps its contents", (~s.open /\ Idle(q)) => (Same(o.m, q.m, 1) /\ Within(o.tc, q.tc, 1) /\ (Balloon(c) \/ o.v = q.v)))
       /\ Why("heat from the shell", IF perform \/ o.p < 9990 THEN o.heat = 0
                                      ELSE IF Area(c) = 0 \/ Radius(c) = 0 THEN o.heat = 0
                                      ELSE o.p < 10010 \/ Within(o.heat, Heat(q), 30 + (Abs(o.heat) \div 100) + ((Area(c) * 30) \div Radius(c))))
       /\ Why("heat to the shell", o.back = -o.heat)
       /\ Why("warnings", Balloon(c) \/ Sum(o.m) = 0 \/ o.warnings = warn)
       /\ Why("rate of pressure", Abs(o.p - q.p) > 20000000 \/ IF Gain(c) = 0 THEN o.dpdt = 0
              ELSE LET d == ((o.p - q.p) * 100) \div dt IN Within(o.dpdt, q.dpdt + (Gain(c) * ((d - q.dpdt) \div 10)) \div 10, 6 + (Gain(c) * 3) \div 10 + (200 \div dt) + (Abs(d) \div 2000)))
       /\ Why("outputs", Same(o.says, o.pp, 0) /\ o.tt = o.t)
Absorb(s, o) == [s EXCEPT !.t = o.t, !.pp = o.pp, !.says = o.says, !.x = o.x, !.p = o.p, !.cp = o.cp, !.v = o.v, !.m = o.m, !.nn = o.n, !.tc = o.tc, !.tcn = o.tcn, !.k = o.k, !.dpdt = o.dpdt,
                          !.et = o.et, !.etp = o.etp, !.etpp = o.etpp, !.er = o.er, !.ev = o.ev, !.held = o.held,
                          !.aim = IF s.act = "Step" /\ o.held THEN Aim(s.pre, s.pre.pp) ELSE @]

(* ---- what edits promise *)
Inv(s) == /\ s.held => (On(s) \/ s.act # "Step")
          /\ ~s.opened => Within(s.cp, Sum(s.pp), 3)
Kept(s, t, i) == Within(t.pp[i], s.pp[i], 0)
StepOK(s, in, t) ==
    /\ t.act \notin {"Step", ""} => (t.t = t.pre.t /\ t.pp = t.pre.pp /\ t.v = t.pre.v /\ t.held = t.pre.held)
    /\ (t.act = "Step" /\ ~t.opened /\ ~Balloon(t.c)) =>
       /\ (t.pre.etp /\ t.pre.vP > 0 /\ t.pre.vT > 0 /\ t.held) => (t.t = t.pre.vT /\ Within(t.cp, t.pre.vP, 1000 + (t.pre.vP \div 200)))       \* temperature and pressure as asked, in one update
       /\ (~t.pre.etp /\ t.pre.etpp /\ Sum(t.pre.vpp) > 0 /\ t.held) => t.pp = t.pre.vpp
       /\ (t.pre.et /\ ~On(t.pre) /\ \A i \in G : ~t.pre.er[i]) => t.pp = t.pre.pp                                          \* a temperature edit keeps pressures
       /\ (~t.pre.et /\ ~On(t.pre)) => (t.t = t.pre.t /\ \A i \in G : ~t.pre.er[i] => Kept(t.pre, t, i))                        \* a rate edit keeps the temperature and the other gases
       /\ \A i \in G : (t.pre.er[i] /\ ~On(t.pre)) =>
            /\ Abs(t.pp[i] - t.pre.vpp[i]) <= Abs(t.pre.pp[i] - t.pre.vpp[i])                                               \* never away from its target
            /\ (t.pp[i] - t.pre.vpp[i] = 0 \/ t.pre.pp[i] = t.pp[i] \/ (t.pp[i] > t.pre.vpp[i]) = (t.pre.pp[i] > t.pre.vpp[i])) \* nor past it
       /\ Idle(t.pre) => (t.pp = t.pre.pp /\ t.t = t.pre.t /\ t.v = t.pre.v)
       /\ (t.pre.held /\ On(t.pre) /\ t.pre.aim = Aim(t.pre, t.pre.pp) /\ t.pre.t = TT(t.pre)) => ~On(t)                                                              \* an edit of an undisturbed tank takes two updates

Configs == CfgSet
Inputs(s) ==
    LET step == <<<<"Step", <<500>>>>>>
        off == <<<<"EditRate", <<0, 0, 0, 0>>>>, <<"EditRate", <<1, 0, 0, 0>>>>>>
        noTP == <<<<"EditTP", <<0, 0, 0>>>>, <<"EditTPP", <<0, 0, 0, 0, 0>>>>, <<"EditT", <<0, 0>>>>, <<"Step", <<500>>>>>>
    IN IF s.steps >= MaxSteps THEN {}
       ELSE {step, <<<<"Restart", <<>>>>>> \o step}
            \cup {off \o <<<<"EditT", <<f, t>>>>>> \o step : f \in {0, 1}, t \in {0, 320}}
            \cup {off \o <<<<"EditTP", <<f, 310, p>>>>>> \o step : f \in {0, 1}, p \in {0, 1200}}
            \cup {off \o <<<<"EditTPP", <<f, 290, a, b, 0>>>>>> \o step : f \in {0, 1}, a \in {0, 400}, b \in {0, 700}}
            \cup {<<<<"EditV", <<1, v>>>>>> \o step : v \in {400, 900}}
            \cup (IF Wide \/ s.steps < 2 THEN {noTP \o <<<<"EditRate", <<g, 1, p, r>>>>>> \o step : g \in {0, 1}, p \in {480, 515, 540}, r \in {0, 20}}
                       \cup {noTP \o <<<<"EditRate", <<0, 1, p, 20>>>>, <<"EditRate", <<1, 1, q, 40>>>>>> \o step : p \in {480, 540}, q \in {505, 560}} ELSE {})
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0, !.pre = NoPre]
=============================================================================
