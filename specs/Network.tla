------------------------------ MODULE Network -------------------------------
(* Linear networks of the basic links (conductor, potential source, flux source, capacitor) on a few
   nodes, whose ports users move at run time: the assembled system of equations, its solution, the
   flux accounting of links and nodes, the islands, the network capacitances, and the port rules.
   What the code computes in floating point is checked as a relation: the observed potentials and
   fluxes must satisfy the link laws and conservation at every node, which has one solution. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, Acts, MaxCmds

COND == 1  POT == 2  SRC == 3  CAP == 4
FAILED == -1  READY == 0  EXECUTE == 1  GROUND == 2  DEFAULT == 3
SC == 10000             \* observed potentials and fluxes are scaled by SC, conductances by 100
BIG == 1750000

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Near(x, y, tol) == Abs(x - y) <= tol

\* cfg = <<nodes, links, type, port 0, port 1, type, port 0, port 1, ...>>; node n is the ground
S0(cfg) ==
    LET L == cfg[2] all(x) == [l \in 1..L |-> x] IN
    [ n |-> cfg[1], L |-> L, type |-> [l \in 1..L |-> cfg[3*l]],
      map |-> [l \in 1..L |-> <<cfg[3*l+1], cfg[3*l+2]>>],
      def |-> [l \in 1..L |-> <<cfg[3*l+1], cfg[3*l+2]>>],
      lock |-> all(FALSE), user |-> all(<<READY, -1, -1>>),
      g |-> all(0), edit |-> all(-1), src |-> all(0), blk |-> all(<<FALSE, 0>>),
      ov |-> all(<<FALSE, FALSE>>), ovp |-> all(<<0, 0>>),
      req |-> [j \in 1..cfg[1] |-> 0], asked |-> [j \in 1..cfg[1] |-> 0],
      kp |-> all(0),                 \* observed potential drops, for the capacitors
      isl |-> 0, ret |-> -1, dt |-> 0, cmds |-> 0 ]

Links(s) == 1..s.L
Nodes(s) == 0..(s.n - 1)

-----------------------------------------------------------------------------
\* Ports
Allowed(s, l, p, node) ==
    /\ p \in 0..1
    /\ node \in 0..s.n
    /\ (s.map[l][2 - p] # node \/ node = s.n)     \* the other port of the link
SetPort(s, l, p, node) ==
    IF ~s.lock[l] /\ Allowed(s, l, p, node)
    THEN [s EXCEPT !.map[l][p + 1] = node, !.ret = 1]
    ELSE [s EXCEPT !.ret = 0]
UserCommand(s, l) ==
    LET c == s.user[l][1] p == s.user[l][2]
        node == CASE c = DEFAULT -> s.def[l][p + 1]
                  [] c = GROUND  -> s.n
                  [] OTHER -> s.user[l][3]
    IN IF c \notin {EXECUTE, GROUND, DEFAULT} THEN s
       ELSE IF c = DEFAULT /\ p \notin 0..1 THEN [s EXCEPT !.user[l] = <<FAILED, -1, -1>>]
       ELSE LET t == SetPort(s, l, p, node)
            IN [t EXCEPT !.user[l] = <<IF t.ret = 1 THEN READY ELSE FAILED, -1, -1>>, !.ret = s.ret]
RECURSIVE Commands(_, _)
Commands(s, l) == IF l > s.L THEN s ELSE Commands(UserCommand(s, l), l + 1)
RECURSIVE Home(_, _)
Home(s, l) == IF l > s.L THEN s
              ELSE Home(SetPort(SetPort(s, l, 0, s.def[l][1]), l, 1, s.def[l][2]), l + 1)
Restart(s) == [Home(s, 1) EXCEPT !.user = [l \in Links(s) |-> <<READY, -1, -1>>],
                                 !.req = [j \in 1..s.n |-> 0], !.ret = -1,
                                 !.edit = [l \in Links(s) |-> -1]]   \* a pending edit is dropped

Step(s, dt) == [Commands(s, 1) EXCEPT !.g = [l \in Links(s) |-> IF s.edit[l] >= 0 THEN s.edit[l] ELSE @[l]],
                                      !.edit = [l \in Links(s) |-> -1],
                                      !.dt = dt, !.asked = s.req, !.req = [j \in 1..s.n |-> 0]]

Apply(s0, nm, a) ==
    LET s == [s0 EXCEPT !.ret = -1, !.dt = 0, !.cmds = @ + 1] IN
    CASE nm = "Conduct"  -> IF s.type[a[1]] = CAP THEN [s EXCEPT !.edit[a[1]] = a[2]]
                            ELSE [s EXCEPT !.g[a[1]] = a[2]]
      [] nm = "Source"   -> [s EXCEPT !.src[a[1]] = a[2]]
      [] nm = "Block"    -> [s EXCEPT !.blk[a[1]] = <<a[2] = 1, a[3]>>]
      [] nm = "SetPort"  -> SetPort(s, a[1], a[2], a[3])
      [] nm = "UserPort" -> [s EXCEPT !.user[a[1]] = <<a[2], a[3], a[4]>>]
      [] nm = "Lock"     -> [s EXCEPT !.lock[a[1]] = a[2] = 1]
      [] nm = "Island"   -> [s EXCEPT !.isl = a[1]]
      [] nm = "Request"  -> [s EXCEPT !.req[a[1] + 1] = a[2]]
      [] nm = "Override" -> IF a[3] = 1
                            THEN [s EXCEPT !.ov[a[1]][a[2] + 1] = TRUE, !.ovp[a[1]][a[2] + 1] = a[4] * SC]
                            ELSE IF a[2] = -1 THEN [s EXCEPT !.ov[a[1]] = <<FALSE, FALSE>>]
                            ELSE [s EXCEPT !.ov[a[1]][a[2] + 1] = FALSE]
      [] nm = "Restart"  -> Restart(s)
      [] nm = "Step"     -> Step(s, a[1])

-----------------------------------------------------------------------------
\* The system of equations (conductances scaled by 100).
G(s, l) == LET open == IF s.blk[l][1] THEN 100 - s.blk[l][2] ELSE 100
           IN CASE s.type[l] = SRC -> 0
                [] s.type[l] = CAP -> s.g[l] \div Max2(s.dt, 1)
                [] OTHER -> (s.g[l] * open) \div 100
Joins(s, l, i, j) == G(s, l) > 0 /\ {s.map[l][1], s.map[l][2]} = {i, j}
RECURSIVE Reach(_, _, _)
Reach(adj, S, n) == LET T == UNION {adj[i] : i \in S} IN IF T = S THEN S ELSE Reach(adj, T, n)
Comp(s) == LET g == TLCEval([l \in Links(s) |-> G(s, l)])
               adj == TLCEval([i \in Nodes(s) |-> {i} \cup
                         {j \in Nodes(s) : \E l \in Links(s) : g[l] > 0 /\ {s.map[l][1], s.map[l][2]} = {i, j}}])
           IN TLCEval([i \in Nodes(s) |-> Reach(adj, {i}, s.n)])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Grounded(s, C) == \E l \in Links(s), i \in C : Joins(s, l, i, s.n)
On(s, l, C) == s.map[l][1] \in C \/ s.map[l][2] \in C
Acts_(s, l) == CASE s.type[l] = POT -> s.src[l] # 0 /\ G(s, l) > 0
                 [] s.type[l] = SRC -> s.src[l] # 0
                 [] s.type[l] = CAP -> s.kp[l] # 0 /\ G(s, l) > 0
                 [] OTHER -> FALSE
Active(s, C) == \E l \in Links(s) : On(s, l, C) /\ Acts_(s, l)
\* The solution is specified unless some floating group of nodes has a source in it, or a capacitor
\* holds such a group's charge.
Tainted(s) == \E l \in Links(s) : s.type[l] = CAP /\ G(s, l) > 0 /\ Abs(s.kp[l]) > BIG
Specified(s, comp) == /\ ~Tainted(s)
                      /\ \A i \in Nodes(s) : Grounded(s, comp[i]) \/ ~Active(s, comp[i])
Overridden(s) == \E l \in Links(s), p \in 1..2 : s.ov[l][p] /\ s.map[l][p] < s.n
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})

\* The flux a link must carry, from port 0 to port 1.
FluxOK(s, o, l) ==
    LET a == s.map[l][1] b == s.map[l][2]
        drop == o.P[a + 1] - o.P[b + 1]
        open == IF s.blk[l][1] THEN 100 - s.blk[l][2] ELSE 100
        lift == CASE s.type[l] = POT -> s.src[l] * SC
                  [] s.type[l] = CAP -> - s.kp[l]
                  [] OTHER -> 0
    IN IF s.type[l] = SRC THEN Near(o.flux[l], (s.src[l] * open * SC) \div 100, 1)
       ELSE Near(100 * o.flux[l], G(s, l) * (drop + lift), 60 + 2 * G(s, l))
Into(s, o, l, i) ==   \* flux of link l into node i
    (IF s.map[l][2] = i THEN o.flux[l] ELSE 0) - (IF s.map[l][1] = i THEN o.flux[l] ELSE 0)
NodeOK(s, o, i, ov) ==
    LET f == TLCEval([l \in Links(s) |-> Into(s, o, l, i)])
        pos == Sum([l \in Links(s) |-> IF f[l] > 0 THEN f[l] ELSE 0], Links(s))
        neg == Sum([l \in Links(s) |-> IF f[l] < 0 THEN -f[l] ELSE 0], Links(s))
    IN /\ Near(o.in[i+1], pos, s.L + 1)
       /\ Near(o.out[i+1], neg, s.L + 1)
       /\ Near(o.thru[i+1], IF o.in[i+1] < o.out[i+1] THEN o.in[i+1] ELSE o.out[i+1], 1)
       /\ (ov \/ Near(pos, neg, s.L + 1))                    \* conservation
OverrideOf(s, i) ==    \* the last link and port with an override on the node wins
    LET all == {<<l, p>> \in Links(s) \X (1..2) : s.ov[l][p] /\ s.map[l][p] = i}
        best == CHOOSE x \in all : \A y \in all : x[1] > y[1] \/ (x[1] = y[1] /\ x[2] >= y[2])
    IN s.ovp[best[1]][best[2]]
HasOverride(s, i) == \E l \in Links(s), p \in 1..2 : s.ov[l][p] /\ s.map[l][p] = i

\* Network capacitance: the potentials' response to a unit of flux satisfies the same equations.
CapOK(s, o, j, comp) ==
    IF s.asked[j+1] = 0 THEN o.ncap[j+1] = 0
    ELSE Grounded(s, comp[j]) =>
         LET d(i) == IF i = s.n THEN 0 ELSE o.d[j+1][i+1]
             terms(i) == [l \in Links(s) |-> IF i \notin {s.map[l][1], s.map[l][2]} THEN 0
                                             ELSE G(s, l) * (2*d(i) - d(s.map[l][1]) - d(s.map[l][2]))]
             tot(i) == Sum([l \in Links(s) |-> IF i \in {s.map[l][1], s.map[l][2]} THEN G(s, l) ELSE 0], Links(s))
             bounded == \A i \in Nodes(s) : Abs(d(i)) < 60000
         IN /\ bounded
            /\ o.ncap[j+1] < 20000000 /\ o.ncap[j+1] > 0
            /\ \A i \in comp[j] : Near(Sum(terms(i), Links(s)), IF i = j THEN s.asked[j+1] * 100000 ELSE 0, 2*tot(i) + 10)
            /\ \A i \in Nodes(s) \ comp[j] : Near(d(i), 0, 1)
            /\ LET want == (s.dt * s.asked[j+1] * 1000000) \div Max2(d(j), 1)   \* ncap * d = dt * asked
               IN Near(o.ncap[j+1], want, 2 + want \div Max2(d(j), 1))

Solved(s, o) ==
    LET comp == Comp(s) ov == Overridden(s)
        wild == ~Specified(s, comp)
    IN /\ Why("islands", s.isl > 0 /\ ~o.threw => \A i \in Nodes(s) : o.isl[i+1] = Sorted(comp[i]))
       /\ (wild \/
            /\ Why("no exception", ~o.threw)
            /\ Why("ground", o.P[s.n + 1] = 0)
            /\ Why("potential bound", \A i \in Nodes(s) : Abs(o.P[i+1]) <= BIG)
            /\ Why("flux bound", \A l \in Links(s) : Abs(o.flux[l]) <= 8 * BIG)
            /\ Why("link potentials", \A l \in Links(s), p \in 1..2 : o.lp[l][p] = o.P[s.map[l][p] + 1])
            /\ Why("override", \A i \in Nodes(s) : HasOverride(s, i) => o.P[i+1] = OverrideOf(s, i))
            /\ Why("floating", \A i \in Nodes(s) : ~ov /\ ~Grounded(s, comp[i]) => o.P[i+1] = 0)
            /\ \A l \in Links(s) : Why(<<"link law", l>>, FluxOK(s, o, l))
            /\ \A i \in Nodes(s) : Why(<<"node", i>>, NodeOK(s, o, i, ov))
            /\ \A j \in Nodes(s) : Why(<<"network capacitance", j>>, CapOK(s, o, j, comp)))

Obs(s) == [ret |-> s.ret, map |-> s.map, user |-> s.user]
Match(s, o) == /\ o.ret = s.ret /\ o.map = s.map /\ o.user = s.user
               /\ (IF s.dt > 0 THEN Solved(s, o) ELSE ~o.threw)
\* What later steps depend on: the potential drops the capacitors have seen, and the potentials the
\* overriding ports hold.
Absorb(s, o) == IF s.dt = 0 THEN s
                ELSE [s EXCEPT !.ovp = [l \in Links(s) |-> [p \in 1..2 |-> IF s.ov[l][p] THEN o.lp[l][p] ELSE @[l][p]]],
                           !.kp = [l \in Links(s) |-> IF Abs(o.lp[l][1]) > 4*BIG \/ Abs(o.lp[l][2]) > 4*BIG \/ o.threw
                                                          THEN 4*BIG ELSE o.lp[l][1] - o.lp[l][2]]]

-----------------------------------------------------------------------------
Configs == CfgSet
Inputs(s) == { << a >> : a \in Acts } \cup { << <<"Step", <<1>>>> >> }
Bound(s) == s.cmds <= MaxCmds
View(s) == [s EXCEPT !.cmds = 0, !.ret = 0, !.dt = 0, !.asked = 0]

\* No link ever joins a node to itself, and every port is on a node.
PortsOK(s) == \A l \in Links(s) : /\ s.map[l][1] \in 0..s.n /\ s.map[l][2] \in 0..s.n
                                  /\ (s.map[l][1] # s.map[l][2] \/ s.map[l][1] = s.n)
IslandsOK(s) == LET comp == Comp(s) IN
                \A i, j \in Nodes(s) : (j \in comp[i] <=> i \in comp[j]) /\ (j \in comp[i] => comp[i] = comp[j])
Inv(s) == PortsOK(s) /\ IslandsOK(s)
StepOK(s, in, t) ==
    \A l \in Links(s) :
       /\ (s.lock[l] => t.map[l] = s.map[l])
       /\ (t.map[l] # s.map[l] => in[1] \in {"SetPort", "Step", "Restart"})
       /\ (in[1] = "SetPort" /\ t.ret = 0 => t.map = s.map)
       /\ (in[1] = "Step" => t.user[l][1] \in {READY, FAILED} \/ t.user[l] = s.user[l])
       /\ (in[1] = "Step" /\ t.user[l][1] = FAILED => t.map[l] = s.map[l])
=============================================================================
