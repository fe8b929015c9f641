------------------------------ MODULE HsQueue ------------------------------
(* The health & status message queue (ms-utils/simulation/hs/TsHsMsgQueue): bounded, first in first out, shared by
   the model threads (which insert), and by the helper, freeze and shutdown jobs (which remove). A call is performed
   atomically at some moment between its beginning and its end (linearizability); threads are interleaved at
   every point at which a call asks for the queue's lock. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxEvents, Sizes, Threads

INS == 1  REM == 2

Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Cap(size) == Max(size, 1)
Idle == <<0, 0>>
NoAnswer == [done |-> FALSE, ok |-> FALSE, msg |-> 0]

\* cfg = <<size, blocking>>
S0(cfg) == [ cap |-> Cap(cfg[1]), blocking |-> cfg[2] = 1, q |-> <<>>, over |-> 0, fail |-> 0, held |-> FALSE,
             pend |-> [t \in 1..4 |-> Idle],      \* the call each thread is in: <<INS or REM, message>>
             ans |-> NoAnswer,                    \* what the call that ended answered
             early |-> FALSE,                     \* the event began a call: it may also have ended it
             nIn |-> 0, nOut |-> 0, n |-> 0 ]

\* The effect of a call.
Do(s, op) ==
    IF op[1] = INS
    THEN IF s.held /\ ~s.blocking THEN [s EXCEPT !.fail = @ + 1, !.ans = [done |-> TRUE, ok |-> TRUE, msg |-> 0]]
         ELSE [s EXCEPT !.q = IF Len(@) < s.cap THEN Append(@, op[2]) ELSE Append(Tail(@), op[2]),
                        !.over = IF Len(s.q) < s.cap THEN @ ELSE @ + 1, !.nIn = @ + 1,
                        !.ans = [done |-> TRUE, ok |-> TRUE, msg |-> 0]]
    ELSE IF s.q = <<>> THEN [s EXCEPT !.ans = [done |-> TRUE, ok |-> FALSE, msg |-> 0]]
    ELSE [s EXCEPT !.q = Tail(@), !.nOut = @ + 1, !.ans = [done |-> TRUE, ok |-> TRUE, msg |-> Head(s.q)]]

\* Can the call be performed while another thread keeps the lock?
Can(s, op) == ~s.held \/ (op[1] = INS /\ ~s.blocking) 

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.ans = NoAnswer, !.early = FALSE, !.n = @ + 1] IN
    CASE n = "Insert"  -> Do(s, <<INS, a[1]>>)
      [] n = "Remove"  -> Do(s, <<REM, 0>>)
      [] n = "Hold"    -> [s EXCEPT !.held = TRUE]
      [] n = "Release" -> [s EXCEPT !.held = FALSE]
      [] n = "Resize"  -> LET c == Cap(a[1])
                              lost == Max(0, Len(s.q) - c)
                          IN [s EXCEPT !.cap = c, !.blocking = (a[2] = 1), !.over = @ + lost,
                                       !.q = SubSeq(@, lost + 1, Len(@))]
      [] n = "Begin"   -> [s EXCEPT !.pend[a[1]] = <<a[2], a[3]>>, !.early = TRUE]
      [] n = "End"     -> IF s.pend[a[1]] = Idle THEN s ELSE Do([s EXCEPT !.pend[a[1]] = Idle], s.pend[a[1]])

\* The thread whose call began in this event is the one the observation names.
Ended(s, o) == IF s.early /\ o.done THEN Do([s EXCEPT !.pend[o.thread] = Idle], s.pend[o.thread]) ELSE s

Match(s, o) ==
    LET t == Ended(s, o) IN
    /\ Why("answer", o.done = t.ans.done)
    /\ Why("result", o.done => o.ok = t.ans.ok /\ (o.ok /\ o.removed => o.msg = t.ans.msg))
    /\ Why("size", o.size = Len(t.q) /\ o.empty = (t.q = <<>>) /\ o.full = (Len(t.q) = t.cap) /\ o.cap = t.cap)
    /\ Why("counts", o.over = t.over /\ o.fail = t.fail)
Absorb(s, o) == Ended(s, o)
Obs(s) == [done |-> s.ans.done, ok |-> s.ans.ok, msg |-> s.ans.msg, size |-> Len(s.q), empty |-> s.q = <<>>,
           full |-> Len(s.q) = s.cap, cap |-> s.cap, over |-> s.over, fail |-> s.fail]

Configs == CfgSet
Next1(s) == 1 + s.nIn + s.fail + Cardinality({t \in 1..4 : s.pend[t][1] = INS})
NoneIn(s) == \A t \in 1..4 : s.pend[t] = Idle
Inputs(s) == { <<<<"Begin", <<t, INS, Next1(s)>>>>>> : t \in {x \in Threads : s.pend[x] = Idle} }
             \cup { <<<<"Begin", <<t, REM, 0>>>>>> : t \in {x \in Threads : s.pend[x] = Idle} }
             \cup { <<<<"End", <<t>>>>>> : t \in {x \in Threads : s.pend[x] # Idle /\ Can(s, s.pend[x])} }
             \cup (IF s.held THEN {<<<<"Release", <<>>>>>>} ELSE {<<<<"Hold", <<>>>>>>})
             \cup (IF NoneIn(s) /\ ~s.held THEN { <<<<"Resize", <<k, b>>>>>> : k \in Sizes, b \in 0..1 } ELSE {})
             \cup (IF Can(s, <<INS, 0>>) THEN { <<<<"Insert", <<Next1(s)>>>>>> } ELSE {})
             \cup (IF Can(s, <<REM, 0>>) THEN { <<<<"Remove", <<>>>>>> } ELSE {})

Inv(s) == /\ Len(s.q) <= s.cap
          /\ \A i, j \in 1..Len(s.q) : s.q[i] = s.q[j] => i = j
          /\ s.nIn = s.nOut + s.over + Len(s.q)         \* every message is delivered, counted as lost, or waiting
StepOK(s, in, t) ==
    \* what a removal returns is the oldest message then in the queue, and nothing else leaves the queue uncounted
    /\ (Len(t.q) < Len(s.q) /\ t.over = s.over => t.q = Tail(s.q) /\ t.ans = [done |-> TRUE, ok |-> TRUE, msg |-> Head(s.q)])
    \* the newest messages are kept
    /\ (t.over > s.over => Len(t.q) = t.cap)
    /\ (t.fail > s.fail => s.held)
Bound(s) == s.n <= MaxEvents
Renumber(s, m) == IF m = 0 THEN 0 ELSE Next1(s) - m
View(s) == <<s.cap, s.blocking, [i \in 1..Len(s.q) |-> Renumber(s, s.q[i])], s.held,
             [t \in 1..4 |-> <<s.pend[t][1], Renumber(s, s.pend[t][2])>>], s.n>>
=============================================================================
