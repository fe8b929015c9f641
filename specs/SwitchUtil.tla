---------------------------- MODULE SwitchUtil ----------------------------
(* GunnsElectSwitchUtil and Switch (aspects/electrical/Switch), the load switches with over-current
   and external trips. Resistances are in 1/10000 of an ohm. *)
EXTENDS Integers, Sequences, Why

CONSTANTS CfgSet, MaxEvents, Amps, Steps

\* cfg = <<which class, closed, protection, two-port, port, priority, resistance, positive limit, negative limit>>
Refused(cfg) == \/ cfg[7] <= 0 \/ (cfg[4] = 1 /\ cfg[5] = 0) \/ (cfg[4] = 0 /\ cfg[5] > 0)
                \/ cfg[6] < 1 \/ (cfg[4] = 0 /\ cfg[6] > 1) \/ cfg[8] < 0 \/ cfg[9] > 0
S0(cfg) == [ init |-> ~Refused(cfg), cmd |-> cfg[2] = 1, closed |-> cfg[2] = 1, pos |-> FALSE, neg |-> FALSE, ext |-> FALSE,
             wait |-> FALSE, just |-> FALSE, rst |-> FALSE, prot |-> cfg[3] = 1, kept |-> cfg[3] = 1, wasIgnored |-> FALSE,
             prio |-> cfg[6], res |-> 10000 * cfg[7], active |-> 10000 * cfg[7], lim |-> <<cfg[8], cfg[9]>>, act |-> <<cfg[8], cfg[9]>>,
             mClosed |-> FALSE, mOpen |-> FALSE, mIgnore |-> FALSE, mPos |-> <<FALSE, 0>>, mNeg |-> <<FALSE, 0>>,
             mRes |-> <<FALSE, 0>>, amps |-> 0, volts |-> 0, power |-> 0, show |-> 0, n |-> 0 ]
Tripped(s) == s.pos \/ s.neg \/ s.ext
B(x) == IF x THEN 1 ELSE 0

Update(s0, supply) ==
    LET pct == IF s0.mRes[1] /\ s0.mRes[2] > 10000 THEN s0.mRes[2] \div 100 ELSE s0.mRes[2]
        a == [s0 EXCEPT !.act = <<IF s0.mPos[1] THEN s0.mPos[2] ELSE s0.lim[1], IF s0.mNeg[1] THEN s0.mNeg[2] ELSE s0.lim[2]>>,
                        !.kept = IF s0.mIgnore /\ ~s0.wasIgnored THEN s0.prot ELSE @,
                        !.prot = IF s0.mIgnore THEN FALSE ELSE IF s0.wasIgnored THEN s0.kept ELSE @,
                        !.wasIgnored = s0.mIgnore,
                        !.mRes[2] = pct,
                        !.active = IF s0.mRes[1] THEN (s0.res \div 10000) * pct ELSE s0.res]
        b == [a EXCEPT !.cmd = IF supply THEN @ ELSE FALSE,
                       !.closed = IF ~supply THEN FALSE
                                  ELSE IF a.mClosed THEN TRUE
                                  ELSE IF a.mOpen \/ a.pos \/ a.neg THEN FALSE
                                  ELSE IF ~Tripped(a) /\ ~a.wait THEN a.cmd ELSE @]
        c == IF ~supply \/ b.rst \/ (Tripped(b) /\ ~b.cmd)
             THEN [b EXCEPT !.ext = FALSE, !.pos = FALSE, !.neg = FALSE, !.wait = FALSE, !.rst = FALSE] ELSE b
    IN [c EXCEPT !.show = IF c.ext THEN 7 ELSE IF c.neg THEN 6 ELSE IF c.pos THEN 5
                          ELSE IF c.mOpen /\ c.mClosed THEN 4 ELSE IF c.mClosed THEN 3 ELSE IF c.mOpen THEN 2 ELSE B(c.closed)]

\* One over-current test: the switch trips once the solution reaches its priority, and waits before.
Over(s, over, k, which) ==
    IF ~over THEN s
    ELSE IF k >= s.prio
    THEN LET t == [s EXCEPT !.amps = 0, !.closed = FALSE, !.wait = FALSE]
         IN IF which = 1 THEN [t EXCEPT !.pos = TRUE] ELSE [t EXCEPT !.neg = TRUE]
    ELSE LET t == [s EXCEPT !.wait = TRUE]
         IN IF which = 1 THEN [t EXCEPT !.pos = FALSE] ELSE [t EXCEPT !.neg = FALSE]

\* x = <<amps, sensed amps, volts, converged step, called in a minor step>>
Flow(s0, x) ==
    LET sensed == IF s0.closed THEN x[2] ELSE 0
        a == [s0 EXCEPT !.wait = FALSE, !.amps = IF s0.closed THEN x[1] ELSE 0, !.volts = x[3]]
        b == IF a.mClosed \/ ~a.prot THEN a
             ELSE Over(Over(a, sensed > a.act[1], x[4], 1), sensed < a.act[2], x[4], 2)
        c == IF ~b.mClosed /\ b.ext /\ b.closed THEN [b EXCEPT !.amps = 0, !.closed = FALSE, !.wait = FALSE] ELSE b
        d == IF x[5] = 1 THEN c ELSE [c EXCEPT !.just = Tripped(c) /\ ~Tripped(s0)]
    IN [d EXCEPT !.power = IF d.closed THEN d.amps * d.amps * d.active ELSE 0]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    IF ~s.init THEN s
    ELSE CASE n = "Cmd"    -> [s EXCEPT !.cmd = a[1] = 1]
           [] n = "Reset"  -> [s EXCEPT !.rst = TRUE]
           [] n = "External" -> [s EXCEPT !.ext = a[1] = 1]
           [] n = "Limits" -> [s EXCEPT !.lim = <<a[1], a[2]>>]
           [] n = "Malf"   -> [s EXCEPT !.mClosed = a[1] = 1, !.mOpen = a[2] = 1]
           [] n = "Ignore" -> [s EXCEPT !.mIgnore = a[1] = 1]
           [] n = "MalfPos" -> [s EXCEPT !.mPos = <<a[1] = 1, a[2]>>]
           [] n = "MalfNeg" -> [s EXCEPT !.mNeg = <<a[1] = 1, a[2]>>]
           [] n = "MalfRes" -> [s EXCEPT !.mRes = <<a[1] = 1, 10000 * a[2]>>]
           [] n = "Update" -> Update(s, a[1] = 1)
           [] n = "Flow"   -> Flow(s, a)

Obs(s) == IF ~s.init THEN [refused |-> TRUE]
          ELSE [ refused |-> FALSE, closed |-> s.closed, cmd |-> s.cmd, tripped |-> Tripped(s), pos |-> s.pos, neg |-> s.neg,
                 wait |-> s.wait, just |-> s.just, amps |-> s.amps, vin |-> s.volts, vout |-> IF s.closed THEN s.volts ELSE 0,
                 power |-> s.power, lim |-> s.lim, show |-> s.show, res |-> IF s.closed THEN s.active ELSE -1 ]
Match(s, o) == o = Obs(s)

Configs == CfgSet
Inputs(s) ==
    IF ~s.init THEN {}
    ELSE { << <<"Cmd", <<1 - B(s.cmd)>> >> >>, << <<"Reset", <<>> >> >>, << <<"Update", <<0>> >> >>, << <<"Update", <<1>> >> >>,
           << <<"External", <<1 - B(s.ext)>> >> >>, << <<"Ignore", <<1 - B(s.mIgnore)>> >> >>,
           << <<"MalfPos", <<1 - B(s.mPos[1]), 2>> >> >>, << <<"MalfRes", <<1 - B(s.mRes[1]), 50>> >> >> }
         \cup { << <<"Malf", m>> >> : m \in {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>} \ {<<B(s.mClosed), B(s.mOpen)>>} }
         \cup { << <<"Flow", <<x, x, 9, k, m>> >> >> : x \in Amps, k \in Steps, m \in {0, 1} }
Bound(s) == s.n <= MaxEvents
View(s) == [s EXCEPT !.n = 0]

Inv(s) == s.init => Why("ignored trips are off", s.wasIgnored => ~s.prot)
StepOK(s, in, t) ==
    s.init =>
    /\ Why("trip", (t.pos /\ ~s.pos) \/ (t.neg /\ ~s.neg) => in[1] = "Flow" /\ in[2][4] >= s.prio /\ ~s.mClosed /\ s.prot /\ ~t.closed
                          /\ (s.act[1] >= 0 /\ s.act[2] <= 0 => s.closed))
    /\ Why("trip lost", (s.pos /\ ~t.pos) \/ (s.neg /\ ~t.neg) =>
             \/ (in[1] = "Update" /\ (in[2][1] = 0 \/ s.rst \/ ~s.cmd))
             \/ (in[1] = "Flow" /\ in[2][4] < s.prio))
    /\ Why("no supply", in[1] = "Update" /\ in[2][1] = 0 => ~t.closed /\ ~Tripped(t) /\ ~t.cmd)
    /\ Why("tripped and closed", in[1] = "Update" /\ (t.pos \/ t.neg) /\ ~t.mClosed => ~t.closed)
    /\ Why("protection lost", in[1] = "Update" /\ ~s.mIgnore /\ s.wasIgnored => t.prot = s.kept)
=============================================================================
