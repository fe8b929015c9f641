------------------------------ MODULE HsFilter ------------------------------
(* TsHsMsgStdFilter on its own: settings change at any time, and another thread may be in the filter. *)
EXTENDS HsFilterCore, Why

CONSTANTS CfgSet, MaxEvents, Keys

\* cfg = <<interval, count, history, blocking>>
S0(cfg) == [ f |-> SetFilter(SetFilter(SetFilter(NewFilter, 1, cfg[1]), 2, cfg[2]), 3, cfg[3]), blocking |-> cfg[4] = 1,
             held |-> FALSE, fails |-> 0, time |-> 0, last |-> -1, pass |-> FALSE, n |-> 0,
             log |-> <<>> ]         \* the messages passed, with their times, since the settings last changed

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.pass = FALSE, !.n = @ + 1] IN
    CASE n = "Send" ->      \* <<time step, type, message>>
            LET time == s.time + a[1]
                r == Filter(s.f, time, a[2], a[3])
                w == [s EXCEPT !.time = time, !.last = a[3]]
            IN IF s.f.en /\ s.held /\ ~s.blocking THEN [w EXCEPT !.fails = @ + 1]
               ELSE [w EXCEPT !.f = r.f, !.pass = r.pass, !.log = IF r.pass /\ s.f.en THEN Append(@, <<time, a[3]>>) ELSE @]
      [] n = "Set" -> [s EXCEPT !.f = SetFilter(@, a[1], a[2]), !.log = <<>>]
      [] n = "Hold" -> [s EXCEPT !.held = TRUE]
      [] n = "Release" -> [s EXCEPT !.held = FALSE]
      [] n = "Restart" -> [s EXCEPT !.f.seen = <<>>, !.fails = 0, !.log = <<>>]
      [] n = "Reset" -> [s EXCEPT !.f.processed = 0, !.f.suppressed = 0]

Obs(s) == [pass |-> s.pass, processed |-> s.f.processed, suppressed |-> s.f.suppressed, fails |-> s.fails,
           intv |-> s.f.intv, count |-> s.f.count, hist |-> s.f.hist, en |-> s.f.en, types |-> [t \in 1..5 |-> (t - 1) \in s.f.types]]
Match(s, o) == /\ Why("passed", o.pass = s.pass)
               /\ Why("counters", o.processed = s.f.processed /\ o.suppressed = s.f.suppressed /\ o.fails = s.fails)
               /\ Why("settings", \A k \in {"intv", "count", "hist", "en", "types"} : o[k] = Obs(s)[k])

Configs == CfgSet
\* Two different messages never pass at the same time: which of them is older would be the code's choice.
Inputs(s) == { <<<<"Send", <<d, t, m>>>>>> : d \in {1, 4, 5}, t \in {0, 4}, m \in Keys }
             \cup { <<<<"Send", <<0, 0, m>>>>>> : m \in Keys \cap {s.last} }
             \cup { <<<<"Set", <<w, v>>>>>> : w \in 1..5, v \in {0, 1} } \cup { <<<<"Set", <<3, 2>>>>>> }
             \cup (IF s.blocking THEN {} ELSE { <<<<IF s.held THEN "Release" ELSE "Hold", <<>>>>>> })
             \cup { <<<<"Restart", <<>>>>>> }
Inv(s) == /\ \A m \in DOMAIN s.f.seen : s.f.seen[m] # <<>>
          \* while every message is remembered, none passes more than `count` times within the interval
          /\ (s.f.hist >= 25 /\ Cardinality(DOMAIN s.f.seen) < 25 => \A i \in 1..Len(s.log) :
                 Cardinality({j \in i..Len(s.log) : s.log[j][2] = s.log[i][2] /\ s.log[j][1] <= s.log[i][1] + 4 * s.f.intv}) <= s.f.count)
StepOK(s, in, t) == /\ (t.f.suppressed > s.f.suppressed => ~t.pass)
                    /\ (in[1] = "Send" => Cardinality({x \in {1} : t.pass}) + (t.f.suppressed - s.f.suppressed) + (t.fails - s.fails) = 1)
                    /\ (in[1] = "Send" /\ t.f.processed > s.f.processed /\ t.pass => Cardinality(DOMAIN t.f.seen) <= t.f.hist \/ in[2][3] \in DOMAIN s.f.seen)
Bound(s) == s.n <= MaxEvents
View(s) == [f |-> [s.f EXCEPT !.seen = [m \in DOMAIN s.f.seen |-> [i \in 1..Len(s.f.seen[m]) |-> s.time - s.f.seen[m][i]]],
                              !.processed = 0, !.suppressed = 0],
            held |-> s.held, b |-> s.blocking, n |-> s.n, last |-> s.last]
=============================================================================
