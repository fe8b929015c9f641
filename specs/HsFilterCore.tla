---------------------------- MODULE HsFilterCore ----------------------------
(* The redundancy and category filter of health & status messages: a message is passed at most `count` times within
   `intv` seconds; the `hist` most recently passed messages are remembered; messages of a suppressed type never pass.
   Times are in quarter seconds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewFilter == [ en |-> TRUE, types |-> {}, count |-> 2, intv |-> 60, hist |-> 25,
               seen |-> <<>>,        \* the messages remembered: key -> the times it was passed (a function on a set of keys)
               processed |-> 0, suppressed |-> 0 ]
Last(q) == q[Len(q)]
RECURSIVE DropOld(_, _)
DropOld(q, from) == IF q # <<>> /\ Head(q) < from THEN DropOld(Tail(q), from) ELSE q
RECURSIVE Evict(_, _)
Evict(seen, size) ==
    IF Cardinality(DOMAIN seen) <= size THEN seen
    ELSE LET oldest == CHOOSE m \in DOMAIN seen : \A k \in DOMAIN seen : Last(seen[m]) <= Last(seen[k])
         IN Evict([k \in DOMAIN seen \ {oldest} |-> seen[k]], size)

\* Does the filter let message m of this type, at this time, pass?
Filter(f, time, type, m) ==
    IF ~f.en THEN [f |-> f, pass |-> TRUE]
    ELSE LET g == [f EXCEPT !.processed = @ + 1]
             no == [g EXCEPT !.suppressed = @ + 1]
         IN IF type \in f.types THEN [f |-> no, pass |-> FALSE]
            ELSE IF m \notin DOMAIN f.seen
            THEN [f |-> [g EXCEPT !.seen = (m :> <<time>>) @@ Evict(@, f.hist - 1)], pass |-> TRUE]
            ELSE LET q == DropOld(f.seen[m], time - 4 * f.intv) IN
                 IF Len(q) < f.count THEN [f |-> [g EXCEPT !.seen[m] = Append(q, time)], pass |-> TRUE]
                 ELSE [f |-> [no EXCEPT !.seen[m] = q], pass |-> FALSE]
SetFilter(f, what, v) == CASE what = 1 -> [f EXCEPT !.intv  = IF v > 0 THEN v ELSE @]
                           [] what = 2 -> [f EXCEPT !.count = IF v > 0 THEN v ELSE @]
                           [] what = 3 -> [f EXCEPT !.hist  = IF v > 0 THEN v ELSE @]
                           [] what = 4 -> [f EXCEPT !.en    = (v = 1)]
                           [] OTHER    -> [f EXCEPT !.types = IF v = 1 THEN @ \cup {what - 5} ELSE @ \ {what - 5}]
=============================================================================
