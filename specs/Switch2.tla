------------------------------ MODULE Switch2 ------------------------------
(* GunnsElectSwitchUtil2 and the trip logics in it (aspects/electrical/Switch, TripLogic): a switch
   that follows its command, its malfunctions and its trips, and resets its voltage trips. *)
EXTENDS Integers, Sequences, Why

CONSTANTS CfgSet, MaxEvents, Volts, Amps, Steps

UV == 1  UVR == 2  OV == 3  OVR == 4  OC == 5  NC == 6    \* the six trip logics
Greater == {UVR, OV, OC}
OPENR == -1                                               \* the resistance of an open switch

\* cfg = <<position, command, reset, uv, uv reset, ov, ov reset, oc, nc, priority, resistance>>
Refused(cfg) == cfg[11] <= 0 \/ cfg[5] < cfg[4] \/ cfg[7] > cfg[6]
S0(cfg) == [ init |-> ~Refused(cfg), pos |-> cfg[1] = 1, cmd |-> cfg[2] = 1, rst |-> cfg[3] = 1,
             closed |-> FALSE, open |-> FALSE, wait |-> FALSE, just |-> FALSE, prio |-> cfg[10], res |-> cfg[11],
             trip |-> [i \in 1..6 |-> [lim |-> cfg[3 + i], on |-> FALSE, inh |-> FALSE, force |-> FALSE]],
             n |-> 0 ]

On(s) == s.trip[UV].on \/ s.trip[OV].on \/ s.trip[OC].on \/ s.trip[NC].on
ResetAll(s) == [s EXCEPT !.wait = FALSE, !.just = FALSE, !.trip = [i \in 1..6 |-> [@[i] EXCEPT !.on = FALSE]]]

\* A trip logic asked about the value x in converged step k: r = <<switch, result>> with result one of
\* "CONFIRM", "DELAY", "REJECT".
Condition(i, t, x) == IF i \in Greater THEN x > t.lim ELSE x < t.lim
Ask(r, i, x, k) ==
    LET s == r[1]
        t0 == s.trip[i]
        t == IF t0.inh THEN [t0 EXCEPT !.on = FALSE] ELSE t0
        s1 == [s EXCEPT !.trip[i] = t]
    IN IF t.on \/ t.inh \/ t.lim = 0 \/ s.prio < 1 \/ ~(t.force \/ Condition(i, t, x)) THEN <<s1, r[2]>>
       ELSE IF t.force \/ k = s.prio THEN <<[s EXCEPT !.trip[i].on = TRUE], "REJECT">>
       ELSE <<s1, IF r[2] = "REJECT" THEN "REJECT" ELSE "DELAY">>

\* The reset logic resets the trip it belongs to as it trips.
AskReset(r, trip, reset, x, k) ==
    IF ~r[1].trip[trip].on THEN r
    ELSE LET q == Ask(r, reset, x, k)
         IN IF q[1].trip[reset].on /\ ~r[1].trip[reset].on
            THEN <<[q[1] EXCEPT !.trip[trip].on = FALSE, !.trip[reset].on = FALSE], q[2]>> ELSE q

Update(s0) ==
    LET a == [s0 EXCEPT !.res = IF @ <= 0 THEN -2 ELSE @,
                        !.trip[UVR].lim = IF @ < s0.trip[UV].lim THEN s0.trip[UV].lim ELSE @,
                        !.trip[OVR].lim = IF @ > s0.trip[OV].lim THEN s0.trip[OV].lim ELSE @]
        b == IF (On(a) /\ ~a.cmd) \/ a.rst THEN [ResetAll(a) EXCEPT !.rst = FALSE] ELSE a
    IN [b EXCEPT !.pos = CASE b.closed -> TRUE
                           [] b.open /\ ~b.closed -> FALSE
                           [] On(b) /\ ~b.closed /\ ~b.open -> FALSE
                           [] OTHER -> IF b.wait THEN @ ELSE b.cmd]

Outcome(r, newpos) == LET s == r[1] IN
    CASE r[2] = "DELAY"  -> [s EXCEPT !.wait = TRUE]
      [] r[2] = "REJECT" -> [s EXCEPT !.just = TRUE, !.pos = newpos]
      [] OTHER -> s
\* amps and volts at converged step k
Trips(s0, amps, volts, k) ==
    LET s == [s0 EXCEPT !.wait = FALSE, !.just = FALSE] IN
    IF k <= 0 THEN s
    ELSE IF (s.trip[UV].on \/ s.trip[OV].on) /\ ~s.open /\ ~s.trip[OC].on /\ ~s.trip[NC].on
    THEN LET r == AskReset(AskReset(<<s, "CONFIRM">>, UV, UVR, volts, k), OV, OVR, volts, k)
         IN Outcome(r, IF r[1].cmd THEN TRUE ELSE s.pos)
    ELSE IF s.cmd /\ ~On(s) /\ ~s.closed
    THEN Outcome(Ask(Ask(Ask(Ask(<<s, "CONFIRM">>, UV, volts, k), OV, volts, k), OC, amps, k), NC, amps, k), FALSE)
    ELSE s

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    IF ~s.init THEN s
    ELSE CASE n = "Cmd"    -> [s EXCEPT !.cmd = a[1] = 1]
           [] n = "Reset"  -> [s EXCEPT !.rst = TRUE]
           [] n = "Malf"   -> [s EXCEPT !.closed = a[1] = 1, !.open = a[2] = 1]
           [] n = "Trip"   -> [s EXCEPT !.trip[a[1]].inh = a[2] = 1, !.trip[a[1]].force = a[3] = 1]
           [] n = "Limit"  -> [s EXCEPT !.trip[a[1]].lim = a[2]]
           [] n = "Res"    -> [s EXCEPT !.res = a[1]]
           [] n = "Update" -> Update(s)
           [] n = "Solved" -> Trips(s, a[1], a[2], a[3])
           [] n = "ResetTrips" -> ResetAll(s)

\* An open switch has the resistance of an open circuit; -2 stands for the least resistance allowed.
Obs(s) == IF ~s.init THEN [refused |-> TRUE]
          ELSE [ refused |-> FALSE, pos |-> s.pos, cmd |-> s.cmd, tripped |-> On(s), wait |-> s.wait, just |-> s.just,
                 trip |-> [i \in 1..6 |-> s.trip[i].on], lim |-> [i \in 1..6 |-> s.trip[i].lim],
                 res |-> IF s.pos THEN s.res ELSE OPENR ]
Match(s, o) == o = Obs(s)

Configs == CfgSet
Inputs(s) ==
    IF ~s.init THEN {}
    ELSE { << <<"Cmd", <<IF s.cmd THEN 0 ELSE 1>> >> >>, << <<"Reset", <<>> >> >>, << <<"Update", <<>> >> >>,
           << <<"ResetTrips", <<>> >> >> }
         \cup { << <<"Malf", m>> >> : m \in {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>} \ {<<IF s.closed THEN 1 ELSE 0, IF s.open THEN 1 ELSE 0>>} }
         \cup { << <<"Trip", <<i, m[1], m[2]>> >> >> : i \in {UV, OC}, m \in {<<0,0>>, <<0,1>>, <<1,0>>} }
         \cup { << <<"Solved", <<x, v, k>> >> >> : x \in Amps, v \in Volts, k \in Steps }
Bound(s) == s.n <= MaxEvents
View(s) == [s EXCEPT !.n = 0]

Inv(s) == s.init =>
    \* a voltage reset logic never stays tripped, and limits of reset and trip don't cross after an update
    /\ Why("reset logic latched", ~s.trip[UVR].on /\ ~s.trip[OVR].on)
    /\ Why("waits and trips at once", ~(s.wait /\ s.just))
StepOK(s, in, t) ==
    s.init =>
    \* a trip happens only on a solved step, never while failed closed, and opens the switch
    /\ Why("trip out of a solution", \A i \in {UV, OV, OC, NC} :
             t.trip[i].on /\ ~s.trip[i].on => in[1] = "Solved" /\ in[2][3] > 0 /\ s.cmd /\ ~s.closed /\ ~t.pos /\ t.just
                                              /\ (s.trip[i].force \/ in[2][3] = s.prio))
    \* a tripped switch that isn't failed closed is open after its update
    /\ Why("tripped and closed", in[1] = "Update" /\ On(t) /\ ~t.closed => ~t.pos)
    /\ Why("malfunction", in[1] = "Update" => (t.closed => t.pos) /\ (t.open /\ ~t.closed => ~t.pos))
    /\ Why("command", in[1] = "Update" /\ ~t.closed /\ ~t.open /\ ~On(t) /\ ~t.wait => t.pos = t.cmd)
    \* over-current trips are only reset by command
    /\ Why("current trip lost", \A i \in {OC, NC} : s.trip[i].on /\ ~t.trip[i].on =>
             in[1] \in {"ResetTrips"} \/ (in[1] = "Update" /\ (s.rst \/ ~s.cmd)) \/ (in[1] = "Solved" /\ s.trip[i].inh))
=============================================================================
