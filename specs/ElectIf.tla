----------------------------- MODULE ElectIf -----------------------------
(* GunnsElectDistributedIf: one side of an electrical interface between two networks, in a real network: a bus (node 0) with the interface
   and a load, and two voltage supplies, each tied to the bus by a conductor. The other side's messages arrive late, repeated or not at all.
   The state machine is the role protocol on what the network has to offer; the electrical solution is a relation between what is
   observed (Match).

   Units: mV, mA, W; power reported 0.01 W; load 0.1 S; other conductances S. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps, Volts

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Within(x, y, tol) == Abs(x - y) <= tol
B(x) == x = 1
GS == 10            \* conductance of a supply

(* cfg = <<1 primary, 2 forced role (1 supply, 2 demand), 3 conductance, 4 threshold, 5 load, 6-7 voltages of the supplies, 8 flows of the bus counted>> *)
S0(c) == [ c |-> c, demand |-> ~B(c[1]), forced |-> c[2], in |-> <<0, 0, B(c[1]), 0, 0>>, frame |-> 0, echo |-> 0, fsf |-> 0, loop |-> 0,
           sup |-> <<<<c[6] > 0, c[6]>>, <<c[7] > 0, c[7]>>>>, tie |-> <<20, 20>>, load |-> c[5], malf |-> <<FALSE, FALSE>>,
           path |-> <<FALSE, FALSE>>,            \* what the last solution that looked for it says of a path from each supply
           look |-> FALSE,                       \* the next solution will look for it
           out |-> 0, steps |-> 0, act |-> "", n |-> 0 ]

On(s, k) == s.sup[k][1] /\ s.sup[k][2] > 0
Avail(s, path, k) == s.sup[k][1] /\ path[k]
Offer(s, path) == LET V(k) == IF Avail(s, path, k) THEN s.sup[k][2] ELSE 0 IN Max(V(1), V(2))
\* One update of the roles.
Update(s, path) ==
    LET ds == s.in[2] > 0 /\ s.demand /\ s.in[3] /\ s.fsf > s.loop
        sd == s.in[2] > 0 /\ ~s.demand /\ Offer(s, path) < s.in[5]
    IN IF s.forced = 1 THEN [s EXCEPT !.demand = FALSE] ELSE IF s.forced = 2 THEN [s EXCEPT !.demand = TRUE]
       ELSE IF ds \/ sd THEN [s EXCEPT !.demand = ~@, !.fsf = 0] ELSE s
Stepping(s) ==
    LET s1 == [s EXCEPT !.frame = @ + 1, !.fsf = @ + 1, !.loop = s.frame + 1 - s.in[2], !.echo = s.in[1], !.steps = @ + 1]
        any == On(s, 1) \/ On(s, 2)
        path == [k \in 1..2 |-> IF s.look \/ any THEN s.tie[k] > 0 /\ s.c[4] < 1000 ELSE s.path[k]]
        s2 == Update(s1, s.path)
        s3 == Update(s2, path)
    IN [s3 EXCEPT !.path = path, !.look = any, !.out = Offer(s, path)]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n] IN
    CASE n = "In"      -> [s EXCEPT !.in = <<a[1], a[2], B(a[3]), a[4], a[5]>>]
      [] n = "Supply"  -> [s EXCEPT !.sup[a[1] + 1] = <<B(a[2]), a[3]>>]
      [] n = "Tie"     -> [s EXCEPT !.tie[a[1] + 1] = a[2]]
      [] n = "Load"    -> [s EXCEPT !.load = a[1]]
      [] n = "Force"   -> [s EXCEPT !.forced = a[1]]
      [] n = "Malf"    -> [s EXCEPT !.malf[a[1] + 1] = B(a[2])]
      [] n = "Restart" -> s
      [] n = "Step"    -> Stepping(s)
Obs(s) == [demand |-> s.demand, frame |-> s.frame, echo |-> s.echo]

Sources(s) == s.demand /\ ~s.malf[2] /\ s.in[5] > 0
\* What a regulated source of vs behind g gives at v: never less than nothing.
Gives(on, g, vs, v) == IF on THEN Max(0, g * (vs - v)) ELSE 0
Match(s, o) ==
    /\ Why("no failure", ~o.threw)
    /\ Why("role", o.demand = s.demand)
    /\ Why("counts messages", o.frame = s.frame /\ o.echo = s.echo)
    /\ s.act = "Step" =>
        LET v == [k \in 0..2 |-> o.v[k + 1]] IN
        /\ Why("says its role", o.asks = s.demand)
        /\ Why("available supplies", \A k \in 1..2 : o.avail[k] = Avail(s, s.path, k))
        /\ Why("what the load takes", Within(o.load, (s.load * v[0]) \div 10, 2 + s.load \div 10))
        /\ Why("what the supplies give", \A k \in 1..2 : Within(o.i[k], Gives(On(s, k), GS, s.sup[k][2] * 1000, v[k]), GS + 1))
        /\ Why("ties", \A k \in 1..2 : Within(o.t[k], s.tie[k] * (v[k] - v[0]), s.tie[k] + 1) /\ Within(o.t[k], o.i[k], 3))
        /\ Why("what the other side gives", Within(o.src, Gives(Sources(s), s.c[3], s.in[5] * 1000, v[0]), s.c[3] + 1))
        /\ Why("what the other side takes", IF s.demand \/ s.malf[1] \/ s.in[4] = 0 THEN o.draw = 0
                                            ELSE IF v[0] = 0 THEN o.draw = 0
                                            ELSE Within(o.draw, (s.in[4] * 1000000) \div v[0], 1 + o.draw \div 2000))
        /\ Why("current is conserved", Within(o.src + o.t[1] + o.t[2], o.load + o.draw, 4))
        /\ Why("voltage reported", Within(o.volt, IF s.demand THEN s.out * 1000 ELSE v[0], 1))
        /\ Why("power reported", IF s.demand THEN Within(o.power, (o.src \div 10) * s.in[5] + ((o.src % 10) * s.in[5]) \div 10, s.in[5] + Abs(o.power) \div 1000000) ELSE o.power = 0)
        /\ Why("flows of the bus counted once", B(s.c[8]) => Within(o.influx, o.outflux, 4))
Absorb(s, o) == s

(* ---- what the interface promises *)
Inv(s) == TRUE
StepOK(s, in, t) ==
    /\ (s.demand # t.demand => in[1] = "Step")
    /\ (in[1] = "Step" /\ s.forced # 0 => t.demand = (s.forced = 2))
    /\ (in[1] = "Step" /\ s.forced = 0 /\ s.in[2] = 0 => t.demand = s.demand)               \* no role changes before the other side has heard of this one
    /\ (in[1] = "Step" /\ s.forced = 0 /\ s.in[2] > 0 /\ t.out < s.in[5] => (t.demand \/ s.in[3]))       \* the higher offer supplies
    /\ (in[1] = "Step" /\ s.forced = 0 /\ s.demand /\ ~t.demand => (s.in[3] /\ t.out >= s.in[5]))
    /\ (in[1] = "Step" => (t.out > 0 => \E k \in 1..2 : t.out = s.sup[k][2] /\ s.sup[k][1] /\ s.tie[k] > 0))

Configs == CfgSet
Inputs(s) ==
    LET msg(d, v, lag) == <<"In", <<s.frame + 1, Max(0, s.frame - lag), d, 200, v>>>>
        st == <<"Step", <<>>>> IN
    IF s.steps >= MaxSteps THEN {}
    ELSE {<<st>>} \cup {<<msg(d, v, lag), st>> : d \in 0..1, v \in Volts, lag \in 0..1}
         \cup {<<<<"Supply", <<k, e, v>>>>, st>> : k \in 0..1, e \in 0..1, v \in Volts}
         \cup {<<<<"Tie", <<0, 20 - s.tie[1]>>>>, st>>, <<<<"Malf", <<0, IF s.malf[1] THEN 0 ELSE 1>>>>, st>>, <<<<"Malf", <<1, IF s.malf[2] THEN 0 ELSE 1>>>>, st>>}
         \cup {<<<<"Force", <<f>>>>, st>> : f \in {0, 1, 2} \ {s.forced}}
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0]
=============================================================================
