------------------------------- MODULE HsMngr -------------------------------
(* The health & status manager (ms-utils/simulation/hs/TsHsStdMngr): every message a model logs is output at once (before
   the helper thread starts) or queued and output by the helper thread, the freeze job or the shutdown job, in the order
   logged, to every enabled output plugin, unless the filter suppresses it or the queue overflows. A fatal message
   of a listed subsystem terminates the simulation. A plugin that fails is disabled. *)
EXTENDS HsFilterCore, Why

CONSTANTS CfgSet, MaxEvents, Msgs

INFO == 1  FATAL == 4
Max(x, y) == IF x > y THEN x ELSE y

\* The subsystems named in the termination list number k of the harness.
Listed(k) == CASE k = 0 -> {} [] k = 1 -> {1} [] k = 2 -> {1, 2} [] k = 3 -> {2, 3} [] k = 4 -> {} [] OTHER -> {4}
\* Only the first twelve characters of the subsystem are logged: 4 and 5 become the same.
Short(sub) == IF sub = 5 THEN 4 ELSE sub

\* cfg = <<capacity, interval, count, history, filter on, category filter (bits), termination on, list, text file: 0 off 1 on 2 cannot be opened 3 a new file each run>>
RECURSIVE Bits(_, _)
Bits(v, k) == IF v = 0 THEN {} ELSE (IF v % 2 = 1 THEN {k} ELSE {}) \cup Bits(v \div 2, k + 1)
S0(c) == [ f |-> SetFilter(SetFilter(SetFilter([NewFilter EXCEPT !.en = c[5] = 1, !.types = Bits(c[6], 0)], 1, c[2]), 2, c[3]), 3, c[4]),
           cap |-> Max(c[1], 1), q |-> <<>>, over |-> 0, now |-> TRUE, helper |-> TRUE, term |-> c[7] = 1, list |-> c[8],
           textcfg |-> c[9],
           on |-> <<c[9] \in {1, 3}, TRUE, TRUE>>,         \* plugins: the text file and two others
           bad |-> <<FALSE, FALSE, FALSE>>,         \* the plugin's next call fails
           up |-> <<0, 0, 0>>,                      \* updates of the plugins
           out |-> <<<<>>, <<>>, <<>>>>,            \* what each plugin was given in this event
           ended |-> FALSE, down |-> <<FALSE, FALSE, FALSE>>, time |-> 0, logged |-> 0, n |-> 0 ]

\* m = <<time, text, line, type, subsystem>>
Output(s, m) == LET k == {p \in 1..3 : s.on[p]} IN
    [s EXCEPT !.out = [p \in 1..3 |-> IF p \in k THEN Append(s.out[p], m) ELSE s.out[p]],
              !.on = [p \in 1..3 |-> s.on[p] /\ ~s.bad[p]],
              !.bad = [p \in 1..3 |-> s.bad[p] /\ p \notin k]]
Sift(s, m) == LET r == Filter(s.f, m[1], m[4], <<m[2], m[3], m[5]>>)
                  w == [s EXCEPT !.f = r.f]
              IN IF r.pass THEN Output(w, m) ELSE w
RECURSIVE Drain(_)
Drain(s) == IF s.q = <<>> THEN s ELSE Drain(Sift([s EXCEPT !.q = Tail(@)], Head(s.q)))
Log(s0, m) == LET s == [s0 EXCEPT !.logged = @ + 1] IN
              IF s.now THEN Sift(s, m)
              ELSE IF Len(s.q) < s.cap THEN [s EXCEPT !.q = Append(@, m)]
              ELSE [s EXCEPT !.q = Append(Tail(@), m), !.over = @ + 1]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.out = <<<<>>, <<>>, <<>>>>, !.ended = FALSE, !.down = <<FALSE, FALSE, FALSE>>, !.n = @ + 1] IN
    CASE n = "Msg" ->       \* <<seconds since the last, text, line, type, subsystem>>
            LET time == s.time + 4 * a[1]
                t == Log([s EXCEPT !.time = time], <<time, a[2], a[3], a[4], Short(a[5])>>)
            IN [t EXCEPT !.ended = s.term /\ a[4] = FATAL /\ a[5] \in Listed(s.list)]
      [] n = "PostInit" -> [s EXCEPT !.now = FALSE]
      [] n = "Helper"   -> IF s.helper THEN Drain(s) ELSE s
      [] n = "FreezeInit" -> [s EXCEPT !.helper = FALSE]
      [] n = "Freeze"   -> Drain(s)
      [] n = "Unfreeze" -> [s EXCEPT !.helper = TRUE]
      [] n = "Update"   -> [s EXCEPT !.up = [p \in 1..3 |-> IF s.on[p] THEN s.up[p] + 1 ELSE s.up[p]],
                                     !.on = [p \in 1..3 |-> s.on[p] /\ ~s.bad[p]], !.bad = [p \in 1..3 |-> s.bad[p] /\ ~s.on[p]]]
      [] n = "Restart"  -> Log([s EXCEPT !.f.seen = <<>>, !.on[1] = (s.textcfg > 0), !.time = @ + 4], <<s.time + 4, -1, 0, INFO, 0>>)
      [] n = "Shutdown" -> LET t == Drain([s EXCEPT !.helper = FALSE]) IN [t EXCEPT !.down = t.on]
      [] n = "Fail"     -> [s EXCEPT !.bad[a[1]] = TRUE]
      [] n = "Enable"   -> [s EXCEPT !.on[a[1]] = a[2] = 1]
      [] n = "List"     -> [s EXCEPT !.list = a[1]]

\* If its file cannot be opened, what the text plugin is given is lost.
File(s) == IF s.textcfg # 2 THEN s.out[1] ELSE <<>>
Obs(s) == [text |-> File(s), one |-> s.out[2], two |-> s.out[3], on |-> s.on, up |-> <<s.up[2], s.up[3]>>,
           down |-> <<s.down[2], s.down[3]>>, ended |-> s.ended, size |-> Len(s.q), over |-> s.over, processed |-> s.f.processed,
           suppressed |-> s.f.suppressed]
Match(s, o) == \A k \in DOMAIN Obs(s) : Why(k, o[k] = Obs(s)[k])

Configs == CfgSet
Inputs(s) == { <<<<"Msg", <<1>> \o m>>>> : m \in Msgs }
             \cup { <<<<x, <<>>>>>> : x \in {"PostInit", "Helper", "FreezeInit", "Freeze", "Unfreeze", "Restart", "Shutdown", "Update"} }
             \cup { <<<<"Fail", <<2>>>>>>, <<<<"Enable", <<2, 1>>>>>>, <<<<"Enable", <<1, 0>>>>>> }
Inv(s) == /\ Len(s.q) <= s.cap
          \* while the filter is off or the filter counts all, nothing is lost silently
          /\ (s.f.en => s.f.processed + s.over + Len(s.q) = s.logged)
Texts(q) == [i \in 1..Len(q) |-> q[i][1]]
StepOK(s, in, t) ==
    /\ \A p \in 1..3 : \A i, j \in 1..Len(t.out[p]) : i < j => t.out[p][i][1] <= t.out[p][j][1]      \* in the order logged
    /\ (in[1] \in {"Freeze", "Shutdown"} => t.q = <<>>)
    /\ (\A p \in 1..3 : ~s.on[p] /\ in[1] # "Restart" => t.out[p] = <<>>)                           \* a disabled plugin gets nothing
    /\ (t.ended => in[1] = "Msg" /\ in[2][4] = FATAL)
    /\ (~s.now /\ in[1] = "Msg" => t.out = <<<<>>, <<>>, <<>>>>)
Bound(s) == s.n <= MaxEvents
View(s) == [f |-> [s.f EXCEPT !.processed = 0, !.suppressed = 0,
                              !.seen = [m \in DOMAIN s.f.seen |-> [i \in 1..Len(s.f.seen[m]) |-> s.time - s.f.seen[m][i]]]],
            q |-> [i \in 1..Len(s.q) |-> <<s.time - s.q[i][1], s.q[i][2], s.q[i][4]>>], now |-> s.now, helper |-> s.helper,
            on |-> s.on, bad |-> s.bad, n |-> s.n]
=============================================================================
