----------------------------- MODULE FlowOrder -----------------------------
(* The order in which a network moves its flows in one major step (core/GunnsBasicFlowOrchestrator,
   core/GunnsFluidFlowOrchestrator): every link computes its flows first; then each link transports exactly once and each node
   but the ground integrates exactly once; a link takes from an overflowing node only after that node has integrated, a node
   integrates only after all that flows into it has arrived; the order is given up (a link goes early) only
   when nothing else can go, which happens only in a closed loop. *)
EXTENDS Integers, Sequences, FiniteSets, Why

CONSTANTS Networks, MaxEvents

\* cfg = <<kind (0 basic, 1 fluid), nodes (with the ground, the last), links, then per link <<ports, nodes of the ports>>...>>
RECURSIVE Ports(_, _)
Ports(c, k) == IF c = <<>> THEN <<>> ELSE <<SubSeq(c, 2, c[1] + 1)>> \o Ports(SubSeq(c, c[1] + 2, Len(c)), k)
RECURSIVE Group(_, _)
Group(map, x) == IF map = <<>> THEN <<>> ELSE <<SubSeq(x, 1, Len(map[1]))>> \o Group(Tail(map), SubSeq(x, Len(map[1]) + 1, Len(x)))

S0(c) == [ kind |-> c[1], nn |-> c[2], nl |-> c[3], map |-> Ports(SubSeq(c, 4, Len(c)), 0),
           dir |-> <<>>, over |-> {}, \* of the step: directions of the ports (0 none 1 source 2 sink 3 both), nodes overflowing
           busy |-> FALSE,            \* between the first flow computed and the last call of the step
           computed |-> {}, moved |-> {}, done |-> {}, early |-> {}, order |-> TRUE, n |-> 0 ]

Links(s) == 0..(s.nl - 1)
Nodes(s) == 0..(s.nn - 2)
Feeds(s, l) == {s.map[l + 1][p] : p \in {q \in 1..Len(s.map[l + 1]) : s.dir[l + 1][q] \in {1, 3}}}     \* the nodes it takes from
Fills(s, l) == {s.map[l + 1][p] : p \in {q \in 1..Len(s.map[l + 1]) : s.dir[l + 1][q] \in {2, 3}}}

Ready(s, l) == l \notin s.moved /\ \A k \in Feeds(s, l) \cap s.over : k \in s.done
Full(s, k) == k \notin s.done /\ \A l \in Links(s) : k \in Fills(s, l) => l \in s.moved
Stuck(s) == (\A l \in Links(s) : ~Ready(s, l)) /\ (\A k \in Nodes(s) : ~Full(s, k))
Finished(s) == s.computed = Links(s) /\ s.done = Nodes(s) /\ (s.kind = 1 => s.moved = Links(s))

\* One call made by the orchestrator: <<what, index>>: 1 a link computes, 2 a link transports, 3 a node integrates.
Call(s, e) ==
    LET ok == CASE e[1] = 1 -> s.moved = {} /\ s.done = {} /\ e[2] \in Links(s) \ s.computed
                [] e[1] = 2 -> s.kind = 1 /\ s.computed = Links(s) /\ e[2] \in Links(s) \ s.moved /\ (Ready(s, e[2]) \/ Stuck(s))
                [] e[1] = 3 -> /\ s.computed = Links(s) /\ e[2] \in Nodes(s) \ s.done
                               /\ (s.kind = 1 => Full(s, e[2]))
                [] OTHER -> FALSE
        t == CASE e[1] = 1 -> [s EXCEPT !.computed = @ \cup {e[2]}]
               [] e[1] = 2 -> [s EXCEPT !.moved = @ \cup {e[2]}, !.early = IF Ready(s, e[2]) THEN @ ELSE @ \cup {e[2]}]
               [] e[1] = 3 -> [s EXCEPT !.done = @ \cup {e[2]}]
               [] OTHER -> s
    IN IF Why(<<"not the turn of", e>>, ok) THEN t ELSE [t EXCEPT !.order = FALSE]

Begin(s, dir, over) == [s EXCEPT !.dir = Group(s.map, dir), !.over = over, !.busy = TRUE, !.computed = {}, !.moved = {}, !.done = {}, !.early = {}]
RECURSIVE All(_, _)
All(s, log) == IF log = <<>> \/ ~s.order THEN s ELSE All(Call(s, log[1]), Tail(log))

(* Step: <<directions of all ports, overflowing nodes as flags>>. Small steps: Compute, Transport, Integrate. *)
Total(s) == LET RECURSIVE T(_)
                T(l) == IF l > s.nl THEN 0 ELSE Len(s.map[l]) + T(l + 1)
            IN T(1)
Apply(s, n, a) ==
    CASE n = "Step" -> LET p == Total(s) IN [Begin(s, SubSeq(a, 1, p), {k \in Nodes(s) : a[p + k + 1] = 1}) EXCEPT !.n = @ + 1]
      [] n = "Call" -> LET t == Call(s, a) IN [t EXCEPT !.busy = ~Finished(t)]

\* The calls the real orchestrator made in the step; the warnings it gave: one for each link that went early.
Match(s, o) == IF ~s.busy THEN o.calls = <<>>
               ELSE LET t == All(s, o.calls)
                    IN t.order /\ Why("all links and nodes are updated", Finished(t))
                       /\ Why("a warning for each link that goes early", Cardinality(t.early) = o.warnings) /\ Why("dt", o.dt)
Obs(s) == [calls |-> "any legal order"]
Absorb(s, o) == [s EXCEPT !.busy = FALSE]

Configs == Networks
Choices(c, k) == LET RECURSIVE Seqs(_)
                     Seqs(j) == IF j = 0 THEN {<<>>} ELSE {Append(x, v) : x \in Seqs(j - 1), v \in c}
                 IN Seqs(k)
Inputs(s) == IF s.busy THEN { <<<<"Call", e>>>> : e \in {x \in (({1, 2} \X Links(s)) \cup ({3} \X Nodes(s))) :
                                       \/ x[1] = 1 /\ x[2] \notin s.computed
                                       \/ x[1] = 2 /\ s.computed = Links(s) /\ s.kind = 1 /\ (Ready(s, x[2]) \/ (Stuck(s) /\ x[2] \notin s.moved))
                                       \/ x[1] = 3 /\ s.computed = Links(s) /\ x[2] \notin s.done /\ (s.kind = 0 \/ Full(s, x[2]))} }
             ELSE IF s.n = MaxEvents THEN {}
             ELSE { <<<<"Step", d \o v>>>> : d \in Choices({0, 1, 2, 3}, Total(s)), v \in Choices({0, 1}, s.nn - 1) }

\* A loop of overflowing nodes: k is filled by a link that takes from an overflowing node that ... is k.
RECURSIVE Upstream(_, _, _)
Upstream(s, front, seen) ==
    LET new == UNION {Feeds(s, l) \cap s.over : l \in {m \in Links(s) : Fills(s, m) \cap front # {}}} \ seen
    IN IF new = {} THEN seen ELSE Upstream(s, new, seen \cup new)
Loop(s) == \E k \in s.over : k \in Upstream(s, {k}, {})
Inv(s) == /\ s.order
          \* the step always ends: as long as it is busy, some call is possible
          /\ (s.busy => Inputs(s) # {})
          \* a link goes early only where a loop of overflowing nodes leaves no order
          /\ (s.early # {} => Loop(s))
          /\ (s.early # {} => s.early \subseteq {l \in Links(s) : Feeds(s, l) \cap s.over # {}})
StepOK(s, in, t) ==
    \* what is transported or integrated stays so
    in[1] = "Call" => /\ (s.moved \subseteq t.moved /\ s.done \subseteq t.done)
                      /\ (s.computed # Links(s) => (t.moved = {} /\ t.done = {}))
Bound(s) == TRUE
View(s) == s
=============================================================================
