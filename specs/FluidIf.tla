----------------------------- MODULE FluidIf -----------------------------
(* GunnsFluidDistributedIf: one side of a fluid interface between two networks, on a node (N2, CO2 and a trace compound) whose other links
   and network capacitance the environment plays, with messages of the other side arriving late, repeated or not at all. Step of 1/8 s.

   Units: pressure Pa; capacitance 1e-9 mol/Pa; conductance 1e-8 kmol/kPa/s; flow 1e-7 kmol/s; temperature 0.01 K; CO2 1e-4 of the bulk;
   trace compound 1e-7 of the bulk; volume l. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps, Caps

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
B(x) == x = 1
Muldiv(x, y, d) == (x \div d) * y + (x % d) * (y \div d) + (((x % d) * (y % d)) \div d)
MD(x, y, d) == IF x < 0 THEN -Muldiv(-x, y, d) ELSE Muldiv(x, y, d)
Share(q, n, all) == LET k == all \div 20000 + 1 IN MD(q, n \div k, Max(1, all \div k))            \* q * n / all
Mil(q, n) == MD(q, n \div 1000, 1000) + MD(q, n % 1000, 1000) \div 1000                    \* q * n / 1e6
Within(x, y, tol) == Abs(x - y) <= tol
ONE == 1000000

(* cfg = <<1 pair master, 2 energy as enthalpy, 3 demand option, 4 forced role (1 demand, 2 supply), 5 fluids of the interface (0: as the node's), 6 its trace compounds,
           7 pressure, 8 temperature, 9 CO2 (permille), 10 trace (1e-5), 11 volume>> *)
NF(c) == IF c[5] = 0 THEN 2 ELSE c[5]
NT(c) == IF c[5] = 0 THEN 1 ELSE c[6]
NODATA == [frame |-> 0, loop |-> 0, demand |-> FALSE, cap |-> 0, source |-> 0, t |-> 0, x |-> <<0, 0, 0>>, tc |-> 0]
S0(c) == [ c |-> c, in |-> NODATA, read |-> NODATA, last |-> FALSE, fsf |-> 0, lat |-> 0, frame |-> 0, force |-> c[4], pend |-> -1, supV |-> 0,
           srcP |-> 0, dflux |-> 0, net |-> <<0, 1000, 0, 0, 0, 0>>, block |-> 0, pot |-> c[7], was |-> FALSE,
           x |-> [demand |-> FALSE, vol |-> c[11], content |-> <<c[8], c[9] * 10, c[10] * 100>>, inflow |-> <<c[8], c[9] * 10, c[10] * 100>>, flow |-> <<c[8], c[9] * 10, 0>>, A |-> 0, flux |-> 0, sup |-> 0,
                  cap |-> 0, source |-> 0, frame |-> 0, echo |-> 0, asks |-> FALSE],
           p |-> [demand |-> FALSE, vol |-> c[11], content |-> <<c[8], c[9] * 10, c[10] * 100>>, inflow |-> <<c[8], c[9] * 10, c[10] * 100>>, flow |-> <<c[8], c[9] * 10, 0>>, A |-> 0, flux |-> 0, sup |-> 0,
                  cap |-> 0, source |-> 0, frame |-> 0, echo |-> 0, asks |-> FALSE],
           act |-> "", n |-> 0, steps |-> 0, amb |-> FALSE, exact |-> TRUE ]

(* ---- messages *)
Fr(c, d, i) == IF i <= NF(c) THEN d.x[i] ELSE 0
Bulk(c, d) == Fr(c, d, 1) + Fr(c, d, 2)
Valid(c, d) == /\ d.frame >= 1 /\ d.t > 0 /\ d.cap >= 0 /\ (d.demand \/ d.source >= 0)
               /\ \A i \in 1..3 : Fr(c, d, i) >= 0
               /\ NT(c) > 0 => d.tc >= 0
FluidOf(c, d) == <<d.t, (Fr(c, d, 2) * 10000) \div Bulk(c, d), IF NT(c) = 0 THEN 0 ELSE (d.tc * 100000) \div Bulk(c, d)>>

(* ---- roles the side may have after reading message d, or after reporting capacitance cap; more than one where rounding decides *)
InRoles(s, x, d) ==
    IF s.force = 1 /\ ~x.demand THEN {TRUE}
    ELSE IF s.force = 2 /\ x.demand THEN {FALSE}
    ELSE IF ~Valid(s.c, d) THEN {x.demand}
    ELSE IF x.demand /\ d.demand /\ ~s.last THEN {s.force = 1}
    ELSE IF ~d.demand /\ ~x.demand /\ s.force # 2
         THEN IF s.exact /\ x.cap = d.cap THEN {B(s.c[1])} ELSE IF ~s.exact /\ Abs(x.cap - d.cap) <= 1 THEN {TRUE, FALSE} ELSE {x.cap < d.cap}
    ELSE {x.demand}
OutRoles(s, x, cap) ==
    IF x.demand THEN {TRUE} ELSE IF s.force = 2 \/ s.fsf <= s.lat THEN {FALSE}
    ELSE IF Abs(cap + cap \div 4 - s.read.cap) <= 3 THEN {TRUE, FALSE} ELSE {cap + cap \div 4 < s.read.cap}
Forcing(s, x) == (s.force = 1 /\ ~x.demand) \/ (s.force = 2 /\ x.demand)

(* ---- flow *)
RECURSIVE Lag(_)
Lag(n) == IF n <= 0 THEN 1500000 ELSE (Lag(n - 1) * 3) \div 4
Gain(s, x) ==
    LET lag == Min(ONE, Lag(Min(100, Max(1, s.lat))))
        ratio == Min(1250000, Max(ONE, IF s.read.cap \div 2 >= x.cap THEN 1250000 ELSE Share(ONE, s.read.cap, Max(1, x.cap))))
    IN IF s.read.demand THEN 0 ELSE lag + Mil(ONE - lag, (ratio - ONE) * 4)
Series(a, b) == LET m == Min(a, b)  n == Max(a, b) IN IF n = 0 THEN 0 ELSE IF m < 40000 THEN m - (m * m) \div (m + n) ELSE Share(m, n, m + n)
Conduct(s, x) ==
    LET k == (s.read.cap * 8) \div 10 IN
    IF ~x.demand THEN 0
    ELSE LET g == IF x.cap > 0 /\ s.read.cap > 0
                  THEN LET q == Mil(k, Gain(s, x)) IN IF B(s.c[3]) \/ Gain(s, x) = 0 THEN q ELSE Series(q, (x.cap * 8) \div 10)
                  ELSE Max(0, k)
         IN MD(g, 100 - s.block, 100)
Fluxes(A, dp) == IF dp < 0 THEN -MD(A, -dp, 10000) ELSE MD(A, dp, 10000)

(* ---- what the network's other side sees of the volume it lends *)
Felt(net, dp, sup) == IF dp <= 0 \/ sup <= 0 THEN 0 ELSE IF net[2] = 0 THEN net[1] + 1 ELSE Share(sup, dp, net[2])          \* of what another interface supplies at its node
CapOut(s, x) == Max(0, s.net[1] - x.sup - Felt(s.net, s.net[3], s.net[4]) - Felt(s.net, s.net[5], s.net[6]))
SumTo(f) == 10000000 + f[3]                                   \* bulk and trace, of a bulk of 1e7
Part(n, f) == n - Share(n, f[3], SumTo(f))
Out(c, f) == <<Part(100000 - 10 * f[2], f), IF NF(c) >= 2 THEN Part(10 * f[2], f) ELSE 0>>            \* 1e-5
OutTc(c, f) == IF NT(c) = 0 THEN 0 ELSE Share(f[3], 10000000, SumTo(f))

Reading(s, role) ==
    LET x == s.x  d == s.in  c == s.c
        s1 == [s EXCEPT !.read = d, !.frame = @ + 1, !.fsf = IF role # x.demand THEN 0 ELSE @ + 1, !.lat = s.frame + 1 - d.loop,
                        !.last = IF Forcing(s, x) \/ ~Valid(c, d) THEN @ ELSE d.demand]
        s2 == IF role /\ ~x.demand THEN [s1 EXCEPT !.supV = x.vol, !.pend = 0] ELSE IF x.demand /\ ~role THEN [s1 EXCEPT !.pend = s.supV, !.supV = 0] ELSE s1
        y == [x EXCEPT !.demand = role]
    IN IF role THEN IF Valid(c, d) /\ ~d.demand THEN [s2 EXCEPT !.srcP = d.source, !.dflux = 0, !.x = [y EXCEPT !.content = FluidOf(c, d)]] ELSE [s2 EXCEPT !.srcP = s.pot, !.dflux = 0, !.x = y]
       ELSE IF Valid(c, d) /\ d.demand THEN [s2 EXCEPT !.srcP = 0, !.dflux = -MD(d.source, Bulk(c, d), 1000), !.x = [y EXCEPT !.flow = FluidOf(c, d)]] ELSE [s2 EXCEPT !.srcP = 0, !.dflux = 0, !.x = y]

Proper(f) == f[2] \in 0..10000 /\ f[3] >= 0
Writing(s, role) ==
    LET x == s.x
        cap == CapOut(s, x)
        tc == IF Proper(x.inflow) THEN x.inflow[3] ELSE x.content[3]
        y == [x EXCEPT !.cap = cap, !.frame = s.frame, !.echo = s.read.frame, !.asks = role, !.demand = role,
                       !.source = IF x.demand THEN x.flux + Share(x.flux, tc, 10000000) ELSE IF role THEN 0 ELSE s.pot]
        s1 == [s EXCEPT !.x = y]
    IN IF role /\ ~x.demand THEN [s1 EXCEPT !.supV = x.vol, !.pend = 0, !.fsf = 0] ELSE s1

Stepping(s, p, time) ==
    LET x == s.x
        A == IF time THEN Conduct(s, x) ELSE 0
    IN [s EXCEPT !.steps = @ + 1, !.pot = p, !.pend = -1,
                 !.x = [x EXCEPT !.vol = IF s.pend >= 0 THEN s.pend ELSE @, !.A = A, !.flux = Fluxes(A, s.srcP - p) + s.dflux, !.sup = IF x.demand /\ time THEN (A * 10) \div 8 ELSE 0, !.inflow = x.content]]

Pick(R) == CHOOSE r \in R : TRUE
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n, !.p = s0.x] IN
    CASE n = "In"      -> [s EXCEPT !.in = [frame |-> a[1], loop |-> a[2], demand |-> B(a[3]), cap |-> a[4], source |-> a[5], t |-> a[6], x |-> <<a[7], a[8], a[9]>>, tc |-> a[10]]]
      [] n = "Node"    -> [s EXCEPT !.x.content = <<a[1], a[2] * 10, a[3] * 100>>]
      [] n = "Inflow"  -> s
      [] n = "Cap"     -> [s EXCEPT !.net = a]
      [] n = "Force"   -> [s EXCEPT !.force = a[1]]
      [] n = "Block"   -> [s EXCEPT !.block = IF B(a[1]) THEN a[2] ELSE 0]
      [] n = "Restart" -> [s EXCEPT !.srcP = 0, !.dflux = 0, !.x.sup = 0, !.x.A = 0]
      [] n = "Inputs"  -> LET R == InRoles(s, s.x, s.in) IN [Reading(s, Pick(R)) EXCEPT !.amb = @ \/ Cardinality(R) > 1]
      [] n = "Outputs" -> LET R == OutRoles(s, s.x, CapOut(s, s.x)) IN [Writing(s, Pick(R)) EXCEPT !.amb = @ \/ Cardinality(R) > 1, !.exact = s.x.sup = 0 /\ s.net[4] = 0 /\ s.net[6] = 0]
      [] n = "Step"    -> [Stepping(s, a[1], B(a[2])) EXCEPT !.was = B(a[2])]

(* ---- the code's event o; s.p is what it showed before *)
Obs(s) == s.x
Close(f, g, tol) == Within(f[1], g[1], tol) /\ Within(f[2], g[2], 2) /\ Within(f[3], g[3], 3 + g[3] \div 10000)
Tol(s) == 3 + 5 * s.c[2]
Match(s, o) ==
    LET c == s.c  x == s.p  y == s.x IN
    s.amb \/
    CASE s.n = 0 -> ~o.demand /\ Within(o.vol, c[11], 1) /\ ~o.asks
      [] s.act = "Inputs" ->
           /\ Why("role after reading", o.demand = y.demand)
           /\ Why("volume is handed over", o.vol = x.vol /\ o.edit = (s.pend >= 0))
           /\ Why("the fluid of the volume's owner", Close(o.content, y.content, Tol(s)))
           /\ Why("the fluid on its way", (~y.demand /\ (~x.demand \/ (Valid(c, s.read) /\ s.read.demand))) => Close(o.flow, y.flow, Tol(s)))
           /\ Why("shown on reading", (y.demand /\ Valid(c, s.read) /\ ~s.read.demand) => o.shown = o.content)
           /\ Why("says nothing yet", o.frame = x.frame /\ o.asks = x.asks /\ o.source = x.source)
      [] s.act = "Step" ->
           /\ Why("role kept", o.demand = x.demand)
           /\ Why("volume", Within(o.vol, y.vol, 1) /\ ~o.edit)
           /\ Why("conductance", Within(o.A, y.A, 3 + y.A \div 600 + (IF y.A = 0 THEN 0 ELSE s.read.cap \div 5000)))
           /\ Why("capacitance it lends", Within(o.sup, IF x.demand /\ s.was THEN MD(o.A, 10, 8) ELSE 0, 3))
           /\ Why("source", Within(o.src, MD(o.A, s.srcP \div 10, 10000) + s.dflux \div 10, 3 + s.srcP \div 100000 + o.A \div 5000))
           /\ Why("flux", Within(o.flux, Fluxes(o.A, s.srcP - s.pot) + s.dflux, 3 + Abs(s.srcP - s.pot) \div 10000 + Abs(o.flux) \div 100000))
           /\ LET f == IF x.demand THEN o.content ELSE o.flow
                  q == IF x.demand THEN Max(0, o.flux) ELSE o.flux
                  tol == 4 + Abs(o.flux) \div 5000 IN
              /\ Why("what enters the node", Within(o.in[1], MD(q, 10000 - f[2], 10000), tol) /\ Within(o.in[2], MD(q, f[2], 10000), tol))
              /\ Why("what leaves the node", Within(o.out, IF x.demand THEN Max(0, -o.flux) ELSE 0, tol))
           /\ Why("gives from the node by its own only in the Demand role", (o.flux # 0 \/ ~x.demand) => (o.gives = IF x.demand /\ o.flux < 0 THEN 1 ELSE 0))
           /\ Why("asks for the network's capacitance", o.request)
           /\ Why("fluids kept", Close(o.content, x.content, 2) /\ (x.demand \/ Close(o.flow, x.flow, 2)))
      [] s.act = "Outputs" ->
           LET f == IF x.demand THEN (IF Proper(x.inflow) THEN x.inflow ELSE x.content) ELSE x.content IN
           /\ Why("role after reporting", o.demand = y.demand)
           /\ Why("volume kept", o.vol = x.vol /\ o.edit = (s.pend >= 0))
           /\ Why("says its role and counts", o.asks = y.demand /\ o.frame = y.frame /\ o.echo = y.echo)
           /\ Why("capacitance", Within(o.cap, y.cap, 3 + (s.net[4] + s.net[6]) \div 10000))
           /\ Why("source sent", Within(o.source, y.source, 2 + Abs(y.source) \div 20000))
           /\ Why("temperature sent", Within(o.t, f[1], Tol(s)))
           /\ Why("mixture sent", Within(o.x[1], Out(c, f)[1], 12) /\ Within(o.x[2], Out(c, f)[2], 12) /\ o.x[3] = 0)
           /\ Why("trace sent", Within(o.tc, OutTc(c, f), 4 + f[3] \div 5000))
           /\ Why("shown on writing", ~x.demand => o.shown = x.content)
      [] OTHER -> Why("nothing happens between calls", o.demand = x.demand /\ o.vol = x.vol /\ o.frame = x.frame /\ o.source = x.source)
Absorb(s, o) == [s EXCEPT !.x = [k \in DOMAIN s.x |-> o[k]]]

(* ---- what a side of an interface promises *)
Inv(s) == s.amb \/
    /\ (s.x.demand /\ s.pend < 0) => s.x.vol = 0                                                       \* a Demand side owns no volume
    /\ (~s.x.demand /\ s.pend < 0) => Within(s.x.vol, s.c[11], 1)                                      \* a Supply side has all of it
    /\ s.pend >= 0 => Within(s.pend, IF s.x.demand THEN 0 ELSE s.c[11], 1)
    /\ s.x.A >= 0
StepOK(s, in, t) == t.amb \/
    /\ (t.act = "Step" /\ ~t.p.demand) => (t.x.A = 0 /\ t.x.sup = 0)                                    \* a Supply side doesn't conduct to the other
    /\ (t.act = "Step" /\ t.p.demand /\ t.srcP > t.pot /\ t.dflux = 0) => t.x.flux >= 0                                 \* a Demand side draws from the Supply's pressure
    /\ (t.act = "Step" /\ t.p.demand /\ t.srcP < t.pot /\ t.dflux = 0) => t.x.flux <= 0
    /\ (t.act = "Outputs" /\ t.p.demand) => t.x.demand                                                  \* roles change from Demand only on the other's word
    /\ (t.force = 1 /\ t.p.demand) => t.x.demand
    /\ (t.force = 2 /\ ~t.p.demand) => ~t.x.demand

Configs == CfgSet
Inputs(s) ==
    LET msg(q, k) == <<"In", <<s.frame + 1, s.frame, q, k, IF B(q) THEN 5000 ELSE 110000, 31000, 700, 200, 0, 50>>>>
        rest(p) == <<<<"Step", <<p, 1>>>>, <<"Outputs", <<>>>>>>
        all(p) == <<<<"Inputs", <<>>>>>> \o rest(p) IN
    IF s.steps >= MaxSteps THEN {}
    ELSE {<<<<"Cap", <<k, 1000, 0, 0, 0, 0>>>>>> \o <<msg(q, j)>> \o all(100000) : q \in 0..1, k \in Caps, j \in Caps}
         \cup {<<msg(q, 500000)>> \o all(120000) : q \in 0..1} \cup {all(90000), rest(100000)}
         \cup {<<<<"Force", <<f>>>>>> \o <<msg(q, 400000)>> \o all(100000) : f \in 0..2, q \in 0..1}
         \cup {<<<<"Cap", <<400000, 500, 300, 100000, 100, 50000>>>>>> \o all(100000), <<<<"Restart", <<>>>>>> \o all(100000), <<<<"Block", <<1, 50>>>>>> \o all(105000)}
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0, !.p = s.x]
=============================================================================
