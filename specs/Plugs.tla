------------------------------- MODULE Plugs -------------------------------
(* C07: three sockets (1..3) and two jumpers (links 4 and 5), with plugs 1 and 2 at the first jumper's ends and 3 and 4 at the second's.
   Nodes are 0..9: socket i's own node is i-1, its ambient node 3 (3 and the last socket's 4); the jumpers' ends start at 5, 6, 7 and 8.
   Potentials are 100 + 10 per node; conductivities in 1/10000 of a link's own. *)
EXTENDS Integers, Sequences, Why
CONSTANTS CfgSet, MaxSteps, Plugged, Strict
B(n) == n = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Within(x, y, t) == Abs(x - y) <= t
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

FULL == 10000
Ambient(i) == IF i = 3 THEN 4 ELSE 3
Fluid(c) == c[1] = 1
EndSeals(c, p) == B(c[p + 1])
SocketSeals(c, i) == B(c[i + 5])
Has(c, p) == c[p + 8] > 0
Sockets(c, p) == IF c[p + 8] = 1 THEN <<1, 2, 3>> ELSE IF c[p + 8] = 2 THEN <<3, 1>> ELSE <<>>
None(c, p) == Len(Sockets(c, p))                 \* the number that stands for no socket
Order(c) == IF c[17] = 0 THEN <<1, 2, 3, 4, 5>> ELSE <<5, 4, 3, 2, 1>>
Ends(l) == IF l = 4 THEN <<1, 2>> ELSE <<3, 4>>

(* ---- one plug *)
Active(s, p) == LET L == Sockets(s.c, p)  I == {i \in 1..Len(L) : s.held[L[i]] = p} IN IF I = {} THEN Len(L) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Unplug(s, p, i) ==      \* from the i-th of its list; leaves the end in what surrounds that socket
    LET k == Sockets(s.c, p)[i + 1] IN [s EXCEPT !.held[k] = IF @ = p THEN 0 ELSE @, !.map[p] = Ambient(k), !.last[p] = i]
PlugIn(s, p, i) ==
    LET k == Sockets(s.c, p)[i + 1] IN IF s.held[k] # 0 THEN s ELSE [s EXCEPT !.held[k] = p, !.map[p] = k - 1, !.last[p] = None(s.c, p)]
Update(s0, p) ==
    LET c == s0.c
        no == None(c, p)
        d == IF s0.disable[p] THEN -99 ELSE s0.direct[p]
        at == s0.active[p]
        move == d >= 0 /\ d <= no /\ d # at
        free == IF move /\ d # no THEN s0.held[Sockets(c, p)[d + 1]] = 0 ELSE FALSE
        out == IF move THEN at ELSE s0.out[p]
        in == IF free THEN d ELSE s0.in[p]
        s1 == [s0 EXCEPT !.direct[p] = d]
        s2 == IF out # no /\ (at = out \/ at = no) THEN Unplug(s1, p, out) ELSE s1
        s3 == IF in # no /\ Active(s2, p) = no THEN PlugIn(s2, p, in) ELSE s2
    IN [s3 EXCEPT !.out[p] = no, !.in[p] = no, !.active[p] = Active(s3, p)]
UpdateEnds(s, l) ==
    LET u(x, p) == IF Has(x.c, p) THEN Update(x, p) ELSE x IN u(u(s, Ends(l)[1]), Ends(l)[2])

(* ---- conductivity; a leak's is fixed by the pressures at the link's ends when its rate was set: rate / sqrt(1000 dP density) *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
LeakG(rate, a, b) == IF a = b THEN 0 ELSE (rate * 100000) \div Root(Abs(a - b) * (200 + 10 * (a + b)) * 56150 * 10, 0, 46340)
Blocked(s, l, g) == IF s.block[l] = 0 THEN g ELSE (g * (10 - s.block[l])) \div 10
Where(s, l) == IF l <= 3 THEN <<l - 1, Ambient(l)>> ELSE <<s.map[Ends(l)[1]], s.map[Ends(l)[2]]>>
Shut(s, l) == IF l <= 3 THEN SocketSeals(s.c, l) \/ s.held[l] # 0 ELSE \E k \in {1, 2} : LET p == Ends(l)[k] IN Has(s.c, p) /\ EndSeals(s.c, p) /\ s.active[p] = None(s.c, p)
Conduct(s, l) ==
    LET w == Where(s, l)
        leaks == Fluid(s.c) /\ Shut(s, l) /\ w[1] # w[2]
        fresh == leaks /\ s.leak[l] # s.was[l]
        leak == IF fresh THEN LeakG(s.leak[l], w[1], w[2]) ELSE s.leakG[l]
        g == IF w[1] = w[2] THEN 0 ELSE IF ~Shut(s, l) THEN FULL ELSE IF leaks /\ s.leaking[l] THEN Min(leak, FULL) ELSE 0
    IN [s EXCEPT !.g[l] = Blocked(s, l, g), !.was[l] = IF fresh THEN s.leak[l] ELSE @, !.leakG[l] = leak]
StepLink(s, l) == Conduct(IF l <= 3 THEN s ELSE UpdateEnds(s, l), l)
Two(Op(_, _), s, L) == Op(Op(s, L[1]), L[2])
Four(Op(_, _), s, L) == Op(Op(Two(Op, s, L), L[3]), L[4])
Five(Op(_, _), s, L) == Op(Four(Op, s, L), L[5])

(* ---- restart: everything plugged in again as the checkpoint says, on the network as it was initialized *)
Again(s, p) ==
    LET no == None(s.c, p) IN
    IF ~Has(s.c, p) THEN s
    ELSE Update(IF s.active[p] # no THEN [s EXCEPT !.out[p] = s.active[p], !.in[p] = s.active[p]] ELSE [s EXCEPT !.out[p] = s.last[p], !.in[p] = no], p)
Restarted(s, l) == IF l <= 3 THEN s ELSE Two(Again, s, Ends(l))

NoSave == [n |-> -1]
Start(c) ==
    LET v == <<0, 0, 0, 0>>
        none == [p \in 1..4 |-> None(c, p)]
        s0 == [c |-> c, n |-> 0, act |-> "", bad |-> FALSE, map |-> <<5, 6, 7, 8>>, active |-> none, last |-> none, in |-> none, out |-> none,
               direct |-> [p \in 1..4 |-> -99], disable |-> [p \in 1..4 |-> FALSE], held |-> <<0, 0, 0>>,
               block |-> [l \in 1..5 |-> 0], leaking |-> [l \in 1..5 |-> FALSE], leak |-> [l \in 1..5 |-> 0], was |-> [l \in 1..5 |-> 0], leakG |-> [l \in 1..5 |-> 0],
               g |-> [l \in 1..5 |-> 0], pre |-> NoSave, saved |-> NoSave, steps |-> 0]
        first(s, p) ==
            LET i == c[p + 12] IN
            IF s.bad \/ ~Has(c, p) THEN s
            ELSE IF i < 0 \/ i > None(c, p) THEN [s EXCEPT !.bad = TRUE]
            ELSE IF i = None(c, p) THEN s
            ELSE LET t == PlugIn(s, p, i) IN [t EXCEPT !.active[p] = Active(t, p), !.bad = Active(t, p) # i]
    IN Four(first, s0, <<1, 2, 3, 4>>)
S0(c) == Start(c)

Kept == {"active", "last", "in", "out", "direct", "disable", "held", "block", "leaking", "leak", "was", "leakG"}
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.act = n, !.pre = [map |-> s0.map, g |-> s0.g, held |-> s0.held, active |-> s0.active]] IN
    CASE n = "Connect"    -> [s EXCEPT !.in[a[1] + 1] = a[2]]
      [] n = "Disconnect" -> [s EXCEPT !.out[a[1] + 1] = a[2]]
      [] n = "Direct"     -> [s EXCEPT !.direct[a[1] + 1] = a[2]]
      [] n = "Disable"    -> [s EXCEPT !.disable[a[1] + 1] = B(a[2])]
      [] n = "Block"      -> [s EXCEPT !.block[a[1] + 1] = IF B(a[2]) THEN a[3] ELSE 0]
      [] n = "Leak"       -> [s EXCEPT !.leaking[a[1] + 1] = B(a[2]), !.leak[a[1] + 1] = a[3]]
      [] n = "Save"       -> [s EXCEPT !.saved = [k \in Kept \cup {"map"} |-> s[k]]]
      [] n = "Load"       -> LET t == [k \in DOMAIN s |-> IF k \in Kept THEN s.saved[k] ELSE IF k = "map" THEN <<5, 6, 7, 8>> ELSE IF k = "g" THEN [l \in 1..5 |-> 0] ELSE s[k]]
                             IN Five(Restarted, t, Order(s.c))
      [] n = "Step"       -> [Five(StepLink, s, Order(s.c)) EXCEPT !.steps = @ + 1]

(* ---- the code's event o *)
Obs(s) == [map |-> s.map]
Flow(s, l) == LET w == Where(s, l) IN s.g[l] * (w[1] - w[2])             \* from the first to the second end: 10 per node, conductance 10 at most; in 1/100
RECURSIVE Net(_, _, _)
Net(s, i, l) == IF l = 0 THEN 0 ELSE Net(s, i, l - 1) + (IF Where(s, l)[2] = i THEN Flow(s, l) ELSE 0) - (IF Where(s, l)[1] = i THEN Flow(s, l) ELSE 0)
Match(s, o) ==
    IF s.n = 0 /\ s.bad THEN Why("a bad initial connection is refused", o.threw)
    ELSE
    /\ Why("no error", ~o.threw)
    /\ Why("the jumpers' ends", \A p \in 1..4 : o.map[p] = s.map[p])
    /\ Why("a restart leaves loose ends where they were", (Strict /\ s.act = "Load") => \A p \in 1..4 : s.saved.active[p] = None(s.c, p) => (o.map[p] = s.saved.map[p] \/ o.active[p] # None(s.c, p)))
    /\ Why("which socket a plug is in", \A p \in 1..4 : o.active[p] = s.active[p])
    /\ Why("which plug a socket holds", \A i \in 1..3 : o.held[i] = s.held[i])
    /\ Why("last unplugged from", \A p \in 1..4 : o.last[p] = s.last[p])
    /\ Why("requests are used once", \A p \in 1..4 : o.pending[p] = (s.in[p] # None(s.c, p) \/ s.out[p] # None(s.c, p)))
    /\ Why("nodes by their numbers", o.same)
    /\ Why("conductivity", s.steps = 0 \/ \A l \in 1..5 : Within(o.g[l], s.g[l], IF ~Fluid(s.c) \/ s.g[l] = 0 THEN 0 ELSE 3 + s.g[l] \div 500))
    /\ s.act = "Step" =>
       /\ Why("conducts", \A l \in 1..5 : o.conducts[l] = (s.g[l] > 0))
       /\ Why("the solver is told", \A l \in 1..5 : (s.g[l] # s.pre.g[l] \/ (l > 3 /\ \E k \in {1, 2} : s.map[Ends(l)[k]] # s.pre.map[Ends(l)[k]])) => o.updated[l])
       /\ Why("flows between the ends' nodes", Fluid(s.c) \/ \A i \in 0..8 : Within(o.net[i + 1], Net(s, i, 5), 2))

(* ---- what plugs and sockets promise *)
Plugs == {p \in 1..4 : TRUE}
Inv(s) == s.bad \/
    /\ \A i \in 1..3 : s.held[i] # 0 => /\ Has(s.c, s.held[i])
                                         /\ \E k \in 1..None(s.c, s.held[i]) : Sockets(s.c, s.held[i])[k] = i
    /\ \A i, j \in 1..3 : (i # j /\ s.held[i] # 0) => s.held[i] # s.held[j]                              \* a plug is in one socket at most
    /\ \A p \in Plugs : Has(s.c, p) =>
         /\ (s.active[p] < None(s.c, p)) => s.held[Sockets(s.c, p)[s.active[p] + 1]] = p                \* and knows it
         /\ (s.active[p] = None(s.c, p)) => \A i \in 1..3 : s.held[i] # p
         /\ (s.active[p] < None(s.c, p)) => s.map[p] = Sockets(s.c, p)[s.active[p] + 1] - 1             \* its end of the jumper is at the socket's node
         /\ (s.active[p] = None(s.c, p)) => s.map[p] \notin 0..2                                        \* and at none when unplugged
    /\ \A p \in Plugs : ~Has(s.c, p) => s.map[p] = p + 4
StepOK(s, in, t) == t.bad \/
    /\ t.act \notin {"Step", "Load"} => (t.map = s.map /\ t.held = s.held /\ t.g = s.g)                  \* nothing moves between updates
    /\ t.act = "Step" =>
         /\ \A i \in 1..3 : (s.held[i] # 0 /\ t.held[i] # s.held[i]) =>                                \* nobody else pulls a plug
              LET p == s.held[i]  k == s.active[p] IN s.out[p] = k \/ (s.direct[p] \in 0..None(s.c, p) /\ s.direct[p] # k /\ ~s.disable[p])
         /\ \A p \in Plugs : (Has(s.c, p) /\ ~s.disable[p] /\ s.direct[p] \in 0..(None(s.c, p) - 1)) =>
              (t.active[p] = s.direct[p] \/ t.held[Sockets(s.c, p)[s.direct[p] + 1]] # 0
               \/ s.held[Sockets(s.c, p)[s.direct[p] + 1]] # 0)                                          \* goes straight there if it's free
         /\ \A l \in {4, 5} : (\E k \in {1, 2} : LET p == Ends(l)[k] IN Has(s.c, p) /\ EndSeals(s.c, p) /\ t.active[p] = None(s.c, p)) => (t.g[l] = 0 \/ t.leaking[l])
    /\ (t.act = "Load" /\ \A p \in Plugs : t.saved.direct[p] < 0) => (t.held = t.saved.held /\ t.active = t.saved.active /\ \A p \in Plugs : (t.map[p] = t.saved.map[p] \/ t.saved.map[p] = p + 4))        \* a restart leaves every plug where it was

Configs == CfgSet
Inputs(s) ==
    LET P == {p \in Plugs : Has(s.c, p) /\ p \in Plugged}
        step == <<<<"Step", <<>>>>>>
        one(n, p, i) == <<<<n, <<p - 1, i>>>>>> IN
    IF s.bad \/ s.steps >= MaxSteps THEN {}
    ELSE {step}
         \cup {one("Connect", p, i) \o step : p \in P, i \in 0..1}
         \cup {one("Disconnect", p, i) \o step : p \in P, i \in 0..1}
         \cup {one("Disconnect", p, s.active[p]) \o one("Connect", p, i) \o step : p \in P, i \in 0..1}
         \cup UNION {{one("Direct", p, i) \o step : i \in {-99} \cup (0..None(s.c, p))} : p \in P}
         \cup {one("Connect", p, 0) \o one("Connect", q, IF s.c[q + 8] = 1 THEN 0 ELSE 1) \o step : p \in P, q \in P}
         \cup (IF s.saved = NoSave THEN {<<<<"Save", <<>>>>>> \o step} ELSE {<<<<"Load", <<>>>>>> \o step})
Bound(s) == TRUE
View(s) == [s EXCEPT !.act = "", !.n = 0, !.pre = NoSave]
=============================================================================
