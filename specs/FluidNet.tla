------------------------------ MODULE FluidNet ------------------------------
(* Transport and mixing in a fluid network of tanks (core/GunnsFluidNode, GunnsFluidLink, GunnsFluidConductor, GunnsFluidSource,
   GunnsFluidCapacitor, aspects/fluid/source/GunnsFluidSourceBoundary, PolyFluid, GunnsFluidTraceCompounds): in each major step, what
   the links report to flow leaves one node and enters the other, gas by gas, with its trace compound and its heat; nothing else
   changes a node. A node that gives more than it holds gives all it holds and passes on some of what flows in.

   The flow of each link in the step is the solver's answer (see Solver): the arguments of Step. Masses are in 1e-8 kg, trace
   compounds in 1e-10 kg, energy in 0.01 J. *)
EXTENDS Integers, Sequences, Why

CONSTANTS CfgSet, FlowSet, MaxSteps, Strict

NF == 3
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
\* a / b for 0 <= a <= b, in 1e-8
RECURSIVE Digits(_, _, _, _)
Digits(q, r, b, k) == IF k = 0 THEN q ELSE Digits(q * 10 + (r * 10) \div b, (r * 10) % b, b, k - 1)
RECURSIVE Frac(_, _)
Frac(a, b) == IF a = b THEN 100000000 ELSE IF b > 200000000 THEN Frac(a \div 10, b \div 10) ELSE Digits(0, a, b, 8)
Part(a, f) == LET x == a \div 10000  y == a % 10000  u == f \div 10000  v == f % 10000 IN x * u + (x * v) \div 10000 + (y * u) \div 10000
Share(a, f) == IF a < 0 THEN -Part(-a, f) ELSE Part(a, f)

\* vectors <<gas 1, gas 2, gas 3, trace compound, energy>>
Zero == <<0, 0, 0, 0, 0>>
Plus(u, v) == [i \in 1..5 |-> u[i] + v[i]]
Minus(u, v) == [i \in 1..5 |-> u[i] - v[i]]
Times(u, f) == [i \in 1..5 |-> Share(u[i], f)]
Mass(u) == u[1] + u[2] + u[3]

(* cfg = <<nodes n, links>>, per node <<volume l, pressure, temperature, gases, trace compound>>, per link <<type (0 conductor,
   1 source, 2 boundary source), node, node (of a boundary source: 1 if its flow is reversed), conductivity or demand, gases permille,
   temperature, trace compound ppm>>, then what the nodes hold, per node a vector, and the specific enthalpy of the links' fluid *)
S0(c) ==
    LET n == c[1]  nl == c[2]  at == 2 + 7 * n + 9 * nl
        Link(l) == SubSeq(c, 2 + 7 * n + 9 * (l - 1) + 1, 2 + 7 * n + 9 * l)
    IN [ n |-> n, nl |-> nl,
         vol |-> [k \in 1..n |-> c[2 + 7 * (k - 1) + 1]],
         type |-> [l \in 1..nl |-> Link(l)[1]], a |-> [l \in 1..nl |-> Link(l)[2] + 1], b |-> [l \in 1..nl |-> Link(l)[3] + 1],
         dem |-> [l \in 1..nl |-> Link(l)[4]], gas |-> [l \in 1..nl |-> SubSeq(Link(l), 5, 7)], ppm |-> [l \in 1..nl |-> Link(l)[9]],
         h |-> [l \in 1..nl |-> c[at + 5 * n + l]],
         x |-> [k \in 1..n |-> SubSeq(c, at + 5 * (k - 1) + 1, at + 5 * k)],
         blk |-> [l \in 1..nl |-> 0], heat |-> [k \in 1..n |-> 0],
         sureTc |-> [k \in 1..n |-> TRUE],
         sure |-> [k \in 1..n |-> TRUE],     \* what the node holds after the step is determined
         tol |-> [k \in 1..n |-> 0], out |-> [k \in 1..n |-> 0], in |-> [k \in 1..n |-> <<0, 0, 0>>], over |-> {}, heated |-> FALSE, p |-> <<>>, flow |-> <<>>, steps |-> 0, gone |-> Zero, come |-> Zero ]

Nodes(s) == 1..s.n
Links(s) == 1..s.nl
\* The node link l takes from and the node it flows to under flow f (n + 1: vacuum; 0: the boundary source itself).
From(s, f, l) == CASE s.type[l] = 2 -> 0 [] f[l] >= 0 -> s.a[l] [] OTHER -> s.b[l]
To(s, f, l) == CASE s.type[l] = 2 -> s.a[l] [] f[l] >= 0 -> s.b[l] [] OTHER -> s.a[l]
RECURSIVE Sum(_, _)
Sum(S, v) == IF S = {} THEN 0 ELSE LET e == CHOOSE q \in S : TRUE IN v[e] + Sum(S \ {e}, v)
RECURSIVE SumV(_, _)
SumV(S, v) == IF S = {} THEN Zero ELSE LET e == CHOOSE q \in S : TRUE IN Plus(v[e], SumV(S \ {e}, v))
OutMass(s, f, k) == Sum({l \in Links(s) : From(s, f, l) = k}, [l \in Links(s) |-> Abs(f[l])])
Ins(s, f, k) == {l \in Links(s) : To(s, f, l) = k /\ f[l] # 0}
InMass(s, f, k) == Sum(Ins(s, f, k), [l \in Links(s) |-> IF s.type[l] = 2 THEN f[l] ELSE Abs(f[l])])
Over(s, f, k) == OutMass(s, f, k) > Mass(s.x[k])

Least(x, y) == IF x < y THEN x ELSE y
\* What boundary source l brings. A reversed or negative flow takes its own gases, and trace compound as the node holds it.
Brings(s, f, l) == <<(f[l] * s.gas[l][1]) \div 1000, (f[l] * s.gas[l][2]) \div 1000, (f[l] * s.gas[l][3]) \div 1000,
                     IF f[l] >= 0 THEN (f[l] * s.ppm[l]) \div 10000
                     ELSE LET k == s.a[l] IN -Share(s.x[k][4], Frac(Least(-f[l], Max(1, Mass(s.x[k]))), Max(1, Mass(s.x[k])))),
                     IF f[l] >= 0 THEN Share(s.h[l], f[l]) ELSE -Share(s.h[l], -f[l])>>

\* A node is known if it doesn't overflow, or what flows in is known and enough and it is not heated meanwhile.
RECURSIVE Known(_, _, _, _)
Known(s, f, k, d) == IF ~Over(s, f, k) THEN TRUE
                     ELSE /\ d > 0 /\ s.heat[k] = 0 /\ InMass(s, f, k) >= OutMass(s, f, k) - Mass(s.x[k]) - 10 - OutMass(s, f, k) \div 1000000
                          /\ InMass(s, f, k) > 0
                          /\ \A l \in Ins(s, f, k) : IF From(s, f, l) \in Nodes(s) THEN Known(s, f, From(s, f, l), d - 1) ELSE f[l] > 0
RECURSIVE Carried(_, _, _), Arrives(_, _, _), Leaves(_, _, _)
Arrives(s, f, k) == SumV(Ins(s, f, k), [l \in Links(s) |-> Carried(s, f, l)])
Leaves(s, f, k) == IF ~Over(s, f, k) THEN Times(s.x[k], Frac(OutMass(s, f, k), Max(1, Mass(s.x[k]))))
                   ELSE Plus(s.x[k], Times(Arrives(s, f, k), Frac(Least(OutMass(s, f, k) - Mass(s.x[k]), InMass(s, f, k)), InMass(s, f, k))))
Carried(s, f, l) == IF s.type[l] = 2 THEN Brings(s, f, l)
                    ELSE IF From(s, f, l) \notin Nodes(s) THEN Zero
                    ELSE Times(Leaves(s, f, From(s, f, l)), Frac(Abs(f[l]), OutMass(s, f, From(s, f, l))))
Cancel(s, f, k) == \E l \in Ins(s, f, k) : /\ s.type[l] = 2 /\ f[l] < 0
                                             /\ \E T \in SUBSET (Ins(s, f, k) \ {l}) : Abs(f[l] + Sum(T, [m \in Links(s) |-> IF s.type[m] = 2 THEN f[m] ELSE Abs(f[m])])) <= 2

Step(s, f) ==
    LET ok(k) == Known(s, f, k, s.n) /\ \A l \in Ins(s, f, k) : From(s, f, l) = 0 \/ (From(s, f, l) \in Nodes(s) /\ Known(s, f, From(s, f, l), s.n))
        arr == [k \in Nodes(s) |-> IF ok(k) THEN Arrives(s, f, k) ELSE Zero]
        lvs == [k \in Nodes(s) |-> IF ok(k) THEN Leaves(s, f, k) ELSE Zero]
        y == [k \in Nodes(s) |-> [Minus(Plus(s.x[k], arr[k]), lvs[k]) EXCEPT ![5] = @ + (s.heat[k] * 100) \div 8]]
    IN [s EXCEPT !.x = y, !.flow = f, !.steps = @ + 1,
                 !.over = {k \in Nodes(s) : OutMass(s, f, k) + 100 > Mass(s.x[k])},
                 \* a node from which a boundary source takes what it doesn't hold is not determined
                 \* (known finding: flows into a node that exactly cancel lose what they should change)
                 !.sure = [k \in Nodes(s) |-> ok(k) /\ (Strict \/ ~Cancel(s, f, k)) /\ \A i \in 1..4 : y[k][i] >= 0],
                 \* (known finding: the trace compound of a small flow into a node from which a boundary source takes more is lost)
                 !.sureTc = [k \in Nodes(s) |-> Strict \/ ~\E l, m \in Ins(s, f, k) : f[l] < 0 /\ s.type[l] = 2 /\ m # l /\ Abs(f[m]) \div 8 <= (-f[l]) \div 5 + 1],
                 !.in = [k \in Nodes(s) |-> SubSeq(arr[k], 1, 3)],
                 !.tol = [k \in Nodes(s) |-> (Abs(arr[k][5]) + Abs(lvs[k][5]))],
                 !.out = [k \in Nodes(s) |-> (OutMass(s, f, k) + Abs(InMass(s, f, k)))],
                 !.come = SumV({l \in Links(s) : s.type[l] = 2}, [l \in Links(s) |-> Brings(s, f, l)]),
                 !.gone = SumV({l \in Links(s) : s.type[l] # 2 /\ To(s, f, l) = s.n + 1 /\ From(s, f, l) \in Nodes(s)},
                               [l \in Links(s) |-> IF Known(s, f, From(s, f, l), s.n) THEN Carried(s, f, l) ELSE Zero])]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.flow = <<>>] IN
    CASE n = "Demand" -> [s EXCEPT !.dem[a[1] + 1] = a[2]]
      [] n = "Block"  -> [s EXCEPT !.blk[a[1] + 1] = IF a[2] = 1 THEN a[3] ELSE 0]
      [] n = "Heat"   -> [s EXCEPT !.heat[a[1] + 1] = a[2], !.heated = TRUE]
      [] n = "Restart" -> s
      [] n = "Step"   -> Step(s, a)

Obs(s) == [m |-> [k \in Nodes(s) |-> SubSeq(s.x[k], 1, 3)], tc |-> [k \in Nodes(s) |-> s.x[k][4]], h |-> [k \in Nodes(s) |-> s.x[k][5]]]
Near(x, y, tol) == Abs(x - y) <= tol
\* The flow asked of a source: the demand, less the blockage.
Asked(s, l) == (((s.dem[l] * (1000 - s.blk[l])) * 5) \div 4) * (IF s.type[l] = 2 /\ s.b[l] = 2 THEN -1 ELSE 1)
P(p, k) == IF k > Len(p) THEN 0 ELSE p[k]
Links_ok(s, o) == \A l \in Links(s) :
    CASE s.type[l] = 0 ->
            LET Dp(p) == P(p, s.a[l]) - P(p, s.b[l])  dp == Dp(o.p)  open == s.dem[l] > 0 /\ s.blk[l] < 1000 IN
            /\ Why(<<"a closed conductor passes nothing", l>>, open \/ s.flow[l] = 0)
            /\ Why(<<"flow down the pressure", l>>, (s.flow[l] > 5 => dp >= 0) /\ (s.flow[l] < -5 => dp <= 0))
            \* (a conductor's conductance is that of the pressures before)
            /\ Why(<<"a pressure difference drives flow", l>>,
                   (open /\ \A k \in 1..s.n : o.p[k] > 0 /\ s.p[k] > 0) =>
                     /\ ((dp > 10000 /\ Abs(Dp(s.p)) > 10000) => s.flow[l] > 0) /\ ((dp < -10000 /\ Abs(Dp(s.p)) > 10000) => s.flow[l] < 0))
      [] OTHER ->
            Why(<<"the flow asked of source", l, Asked(s, l)>>,
                \/ Near(s.flow[l], Asked(s, l), 3 + Abs(Asked(s, l)) \div 1000000)
                \/ (s.type[l] = 1 /\ From(s, s.flow, l) \in s.over))
Match(s, o) ==
    /\ Why("fractions, temperature or mass out of range", o.sane) /\ Why("solution failed", ~o.threw)
    /\ \A k \in Nodes(s) : s.sure[k] =>
          /\ \A i \in 1..3 : Why(<<"gas", i, "of node", k>>, Near(o.m[k][i], s.x[k][i], 50 + s.out[k] \div 200000))
          \* a node without volume is as what flows into it
          /\ Why(<<"mixture of node", k>>, s.vol[k] > 0 \/ s.flow = <<>> \/ Mass(s.in[k]) < 1000 \/
                 \A i \in 1..3 : Near(Part(Mass(s.in[k]), o.x[k][i]), s.in[k][i], 60 + s.out[k] \div 100000))
          /\ Why(<<"trace compound of node", k>>, ~s.sureTc[k] \/ Near(o.tc[k], s.x[k][4], 50 + s.x[k][4] \div 100000 + s.out[k] \div 100000))
          /\ Why(<<"energy of node", k>>, s.x[k][5] < 2000 \/ (Mass(o.m[k]) < 2000 /\ s.heated) \/ ((o.temp[k] > 90000 \/ o.temp[k] < 10000) /\ s.heated) \/ Near(o.h[k], s.x[k][5], 50 + s.x[k][5] \div 5000 + s.tol[k] \div 100))
    /\ (s.flow # <<>> => Links_ok(s, o))
\* What is observed is taken over: rounding does not add up.
Absorb(s, o) == [s EXCEPT !.p = o.p, !.x = [k \in Nodes(s) |-> <<o.m[k][1], o.m[k][2], o.m[k][3], o.tc[k], o.h[k]>>],
                          !.sure = [k \in Nodes(s) |-> TRUE], !.sureTc = [k \in Nodes(s) |-> TRUE], !.tol = [k \in Nodes(s) |-> 0], !.out = [k \in Nodes(s) |-> 0]]

Configs == CfgSet
Inputs(s) == IF s.steps = MaxSteps THEN {} ELSE { <<<<"Step", f>>>> : f \in FlowSet }
Total(s) == SumV(Nodes(s), [k \in Nodes(s) |-> s.x[k]])
Inv(s) == TRUE
StepOK(s, in, t) ==
    \* nothing is made or lost: what the nodes hold together changes by what the boundaries bring and take
    (in[1] = "Step" /\ \A k \in Nodes(s) : t.sure[k] /\ s.heat[k] = 0) =>
        LET d == Minus(Plus(Total(s), t.come), Plus(Total(t), t.gone)) IN
        /\ \A i \in 1..4 : Abs(d[i]) <= 8 * s.n * s.nl + 8
        \* no gas is drawn below nothing, and a node no link touches keeps all it has
        /\ \A k \in Nodes(s) : \A i \in 1..3 : t.x[k][i] >= 0
        /\ \A k \in Nodes(s) : (\A l \in Links(s) : in[2][l] = 0 \/ (k # From(s, in[2], l) /\ k # To(s, in[2], l))) => t.x[k] = s.x[k]
Bound(s) == s.steps <= MaxSteps
View(s) == s
=============================================================================
