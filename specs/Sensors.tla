------------------------------ MODULE Sensors ------------------------------
(* Sensors (gunns-ts-models/common/sensors): what a sensor reports of the truth, through its power, its
   errors and its malfunctions.  All quantities are integers (quarters in the smoke detector). *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxEvents, Truths

ANALOG == 0  BI == 1  AI == 2  VALVE == 3  LIMIT == 4  LIMITA == 5  FAN == 6  SMOKE == 7

Abs(x) == IF x < 0 THEN -x ELSE x
Limit(lo, x, hi) == IF x > hi THEN (IF hi < lo THEN lo ELSE hi) ELSE IF x < lo THEN lo ELSE x
B(x) == x = 1
FloorDiv(a, b) == a \div b        \* TLC rounds towards minus infinity, b > 0

NoMalf == [perfect |-> FALSE, fail |-> FALSE, failv |-> 0, off |-> FALSE, stuck |-> FALSE, nopower |-> FALSE,
           scale |-> <<FALSE, 0>>, bias |-> <<FALSE, 0>>, drift |-> <<FALSE, 0>>, noise |-> <<FALSE, 0, 0>>, res |-> <<FALSE, 0>>]
Powered(x) == (x.power \/ x.m.nopower) /\ ~x.m.off
Degraded(x) == /\ ~x.m.perfect
               /\ \/ x.m.fail \/ x.m.off \/ x.m.stuck
                  \/ x.m.scale[1] \/ x.m.bias[1] \/ x.m.drift[1] \/ x.m.noise[1] \/ x.m.res[1]

(* ---- analog: x = [min, max, offv, bias, scale, nscale, res, conv, nmult, noisy, power, truth, drift, out, m] *)
Convert(conv, v) == CASE conv = 0 -> v [] conv = 1 -> 1000 * v [] conv = 2 -> (9 * v) \div 5 + 32
Noise(x, v, ns) ==
    IF ~x.noisy THEN v
    ELSE LET sc == IF x.m.noise[1] THEN x.m.noise[2] ELSE x.nscale
             mu == (IF x.m.noise[1] THEN x.m.noise[3] ELSE x.nmult) * Abs(v - x.offv)
             v1 == IF mu # 0 THEN v + ns[1] * mu ELSE v
         IN IF sc # 0 THEN v1 + (IF mu # 0 THEN ns[2] ELSE ns[1]) * sc ELSE v1
Round(v, r0) == LET r == Abs(r0) IN IF r = 0 THEN v ELSE r * FloorDiv(2 * v + r, 2 * r)
UpdAnalog(x, dt, ns) ==
    LET truth == Convert(x.conv, x.truth)
        live == ~x.m.perfect /\ Powered(x) /\ ~x.m.fail /\ ~x.m.stuck
        drift == IF ~live THEN x.drift ELSE IF x.m.drift[1] THEN x.drift + x.m.drift[2] * dt ELSE 0
        v0 == truth * x.scale * (IF x.m.scale[1] THEN x.m.scale[2] ELSE 1)
              + x.bias + (IF x.m.bias[1] THEN x.m.bias[2] ELSE 0) + drift
        v == IF x.m.perfect THEN truth
             ELSE IF ~Powered(x) THEN x.offv
             ELSE IF x.m.fail THEN x.m.failv
             ELSE IF x.m.stuck THEN x.out
             ELSE Round(Noise(x, v0, ns), IF x.m.res[1] THEN x.m.res[2] ELSE x.res)
    IN [x EXCEPT !.out = Limit(x.min, v, x.max), !.drift = drift, !.tout = truth, !.deg = Degraded(x)]

(* ---- boolean: x = [offv, power, truth, out, m] *)
UpdBool(x, truth) ==
    [x EXCEPT !.out = IF x.m.perfect THEN truth
                      ELSE IF ~Powered(x) THEN x.offv
                      ELSE IF x.m.fail THEN B(x.m.failv)
                      ELSE IF x.m.stuck THEN @ ELSE truth,
              !.deg = Degraded(x)]
Near(x) == Abs(x.truth - x.target) <= x.tol
BoolSensor(off, target, tol, power, truth, out) ==
    [offv |-> off, target |-> target, tol |-> tol, power |-> power, truth |-> truth, out |-> out, deg |-> FALSE, m |-> NoMalf]

AnalogOf(c, truth) == [min |-> c[2], max |-> c[3], offv |-> c[4], bias |-> c[5], scale |-> c[6], nscale |-> c[7], res |-> c[8],
                conv |-> c[9], nmult |-> c[10], noisy |-> B(c[11]), power |-> B(c[12]), truth |-> truth, drift |-> 0,
                out |-> 0, tout |-> 0, deg |-> FALSE, m |-> NoMalf]

(* ---- limit switches *)
InRange(s, v) == Abs(v - s.target) < s.tol \/ (s.target > 0 /\ v > s.target) \/ (s.target < 0 /\ v < s.target)
Switched(s, v, power, failed) == IF failed THEN s.failed ELSE IF ~power THEN s.unpowered ELSE v

(* ---- smoke detector *)
UpdSmoke(s, dt) ==
    LET on == (s.power \/ s.malfOn) /\ ~s.malfFail
        test == on /\ (s.bit \/ s.testing)
        testing == IF test THEN s.timer <= s.rec ELSE s.testing
        timer == IF test THEN (IF s.bit THEN s.timer ELSE s.timer + dt) ELSE IF on THEN 0 ELSE s.timer
        obs == IF test THEN s.omax ELSE IF on THEN s.onom + (s.ocon * s.smoke) \div 4 ELSE s.ooff
        sca == IF test THEN (IF s.bit THEN s.bitv ELSE s.smin)
               ELSE IF on THEN s.snom + ((s.smax - s.snom) * s.smoke) \div 4 ELSE s.soff
        o == Limit(s.omin, obs, s.omax)
        z == Limit(0, sca, s.smax)
        so == IF on THEN Limit(s.omin, o, 416) ELSE s.ooff
        sz == IF on THEN Limit(0, z, 9) ELSE s.soff
    IN [s EXCEPT !.on = on, !.testing = testing, !.timer = timer, !.obs = o, !.sca = z, !.sobs = so, !.ssca = sz,
                 !.vobs = 16 - 2 * so, !.vsca = 2 * sz]

Refused(c) ==
    CASE c[1] \in {ANALOG, FAN} -> c[2] >= c[3] \/ c[4] < c[2] \/ c[4] > c[3]
      [] c[1] = AI    -> c[4] < 0
      [] c[1] = VALVE -> c[4] < 0 \/ c[6] < 0
      [] c[1] = LIMITA -> c[6] <= 0
      [] c[1] = SMOKE -> \/ c[3] >= c[2] \/ c[6] >= c[5] \/ c[8] <= c[3] \/ c[9] <= c[6] \/ c[7] <= c[6] \/ c[10] <= 0
                         \/ c[15] < 0 \/ c[15] > 4 \/ c[16] < 0
                         \/ c[11] < c[3] \/ c[11] > 416 \/ c[12] < 0 \/ c[12] > 9
      [] OTHER -> FALSE
S0(c) ==
    LET base == [init |-> ~Refused(c), kind |-> c[1], n |-> 0] IN
    IF Refused(c) THEN base
    ELSE CASE c[1] = ANALOG -> base @@ [a |-> UpdAnalog(AnalogOf(c, c[13]), 0, <<0, 0>>), noise |-> <<0, 0>>]
           [] c[1] = FAN    -> base @@ [a |-> [i \in 1..3 |-> UpdAnalog(AnalogOf(c, c[13]), 0, <<0, 0>>)]]
           [] c[1] = BI     -> base @@ [a |-> LET x == BoolSensor(B(c[2]), 0, 0, B(c[3]), c[4], FALSE) IN UpdBool(x, B(c[4]))]
           \* until the first sensing the analog truth is that of the initial conditions
           [] c[1] = AI     -> base @@ [a |-> LET x == BoolSensor(B(c[2]), c[3], c[4], B(c[5]), c[6], FALSE) IN UpdBool(x, Near(x))]
           [] c[1] = VALVE  -> base @@ [a |-> [i \in 1..2 |-> LET x == BoolSensor(B(c[2]), c[1 + 2 * i], c[2 + 2 * i], B(c[7]), 0, FALSE)
                                                             IN UpdBool(x, Near(x))]]
           [] c[1] \in {LIMIT, LIMITA} -> base @@ [truth |-> B(c[2]), out |-> B(c[3]), failed |-> B(c[4]), target |-> c[5], tol |-> c[6],
                                                   unpowered |-> B(c[7])]
           [] c[1] = SMOKE  -> base @@ [omax |-> c[2], omin |-> c[3], ocon |-> c[4], smax |-> c[5], smin |-> c[6], bitv |-> c[7],
                                        onom |-> c[8], snom |-> c[9], rec |-> c[10], ooff |-> c[11], soff |-> c[12],
                                        power |-> B(c[13]), bit |-> B(c[14]), smoke |-> c[15], timer |-> c[16],
                                        malfOn |-> FALSE, malfFail |-> FALSE, on |-> FALSE, testing |-> FALSE,
                                        obs |-> 0, sca |-> 0, sobs |-> c[11], ssca |-> c[12], vobs |-> 0, vsca |-> 0]

SetMalf(m, a) == [m EXCEPT !.perfect = B(a[1]), !.fail = B(a[2]), !.failv = a[3], !.off = B(a[4]), !.stuck = B(a[5]), !.nopower = B(a[6])]
SetErr(m, a) == CASE a[1] = 1 -> [m EXCEPT !.scale = <<B(a[2]), a[3]>>]
                  [] a[1] = 2 -> [m EXCEPT !.bias = <<B(a[2]), a[3]>>]
                  [] a[1] = 3 -> [m EXCEPT !.drift = <<B(a[2]), a[3]>>]
                  [] a[1] = 4 -> [m EXCEPT !.noise = <<B(a[2]), a[3], a[4]>>]
                  [] a[1] = 5 -> [m EXCEPT !.res = <<B(a[2]), a[3]>>]
Multi(s) == s.kind \in {VALVE, FAN}
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    IF ~s.init THEN s
    ELSE CASE n = "Malf"  -> IF Multi(s) THEN [s EXCEPT !.a[a[7]].m = SetMalf(@, a)] ELSE [s EXCEPT !.a.m = SetMalf(@, a)]
           [] n = "Error" -> IF Multi(s) THEN [s EXCEPT !.a[a[5]].m = SetErr(@, a)] ELSE [s EXCEPT !.a.m = SetErr(@, a)]
           [] n = "Power" -> (CASE s.kind = SMOKE -> [s EXCEPT !.power = B(a[1])]
                               [] Multi(s) -> [s EXCEPT !.a = [i \in DOMAIN @ |-> [@[i] EXCEPT !.power = B(a[1])]]]
                               [] OTHER -> [s EXCEPT !.a.power = B(a[1])])
           [] n = "Truth" -> (CASE s.kind = SMOKE -> [s EXCEPT !.smoke = a[1]]
                               [] Multi(s) -> [s EXCEPT !.a = [i \in DOMAIN @ |-> [@[i] EXCEPT !.truth = a[1]]]]
                               [] OTHER -> [s EXCEPT !.a.truth = a[1]])
           [] n = "Noise" -> [s EXCEPT !.noise = a]
           [] n = "Update" -> (CASE s.kind = ANALOG -> [s EXCEPT !.a = UpdAnalog(@, a[1], s.noise)]
                                [] s.kind = FAN    -> [s EXCEPT !.a = [i \in 1..3 |-> UpdAnalog(@[i], a[1], <<0, 0>>)]]
                                [] s.kind = BI     -> [s EXCEPT !.a = UpdBool(@, B(@.truth))]
                                [] s.kind = AI     -> [s EXCEPT !.a = UpdBool(@, Near(@))]
                                [] s.kind = VALVE  -> [s EXCEPT !.a = [i \in 1..2 |-> UpdBool(@[i], Near(@[i]))]]
                                [] s.kind = SMOKE  -> UpdSmoke(s, a[1]))
           [] n = "Bit"   -> [s EXCEPT !.bit = B(a[1])]
           [] n = "MalfSmoke" -> [s EXCEPT !.malfOn = B(a[1]), !.malfFail = B(a[2])]
           \* limit switches: value, powered, failed
           [] n = "Sense" -> LET v == IF s.kind = LIMIT THEN B(a[1]) ELSE InRange(s, a[1])
                             IN [s EXCEPT !.truth = v, !.out = Switched(s, v, B(a[2]), B(a[3]))]
           [] n = "Failed" -> [s EXCEPT !.failed = B(a[1])]
           [] n = "Draw"  -> s

Obs(s) == IF ~s.init THEN [refused |-> TRUE]
          ELSE CASE s.kind = ANALOG -> [out |-> s.a.out, truth |-> s.a.tout, degraded |-> s.a.deg, good |-> TRUE]
                 [] s.kind = FAN   -> [sum |-> s.a[1].out + s.a[2].out + s.a[3].out, out |-> [i \in 1..3 |-> s.a[i].out]]
                 [] s.kind \in {BI, AI} -> [out |-> s.a.out, degraded |-> s.a.deg]
                 [] s.kind = VALVE -> [open |-> s.a[1].out, close |-> s.a[2].out]
                 [] s.kind \in {LIMIT, LIMITA} -> [out |-> s.out, truth |-> s.truth]
                 [] s.kind = SMOKE -> [on |-> s.on, testing |-> s.testing, obs |-> s.obs, sca |-> s.sca, sobs |-> s.sobs, ssca |-> s.ssca,
                                       vobs |-> s.vobs, vsca |-> s.vsca]
Match(s, o) == Why("sensed", Obs(s) = o)

---------------------------------------------------------------------------
Configs == CfgSet
\* the malfunctions explored one at a time and in pairs
MalfSets == { <<p, f, v, o, k, i>> : p \in 0..1, f \in 0..1, v \in {1}, o \in 0..1, k \in 0..1, i \in 0..1 }
Inputs(s) ==
    IF ~s.init THEN {}
    ELSE CASE s.kind \in {ANALOG, BI, AI} ->
              { <<<<"Truth", <<t>>>>, <<"Update", <<1>>>>>> : t \in IF s.kind = BI THEN {0, 1} ELSE Truths }
              \cup { <<<<"Malf", m>>, <<"Update", <<1>>>>>> : m \in MalfSets }
              \cup { <<<<"Power", <<p>>>>, <<"Update", <<1>>>>>> : p \in 0..1 }
              \cup (IF s.kind = ANALOG
                    THEN { <<<<"Error", <<k, f, v, 1>>>>, <<"Update", <<d>>>>>> : k \in 1..5, f \in 0..1, v \in {2}, d \in {0, 1} }
                         \cup { <<<<"Noise", p>>, <<"Update", <<1>>>>>> : p \in {<<0, 0>>, <<1, -1>>} } ELSE {})
           [] s.kind \in {FAN, VALVE} ->
              { <<<<"Truth", <<t>>>>, <<"Update", <<1>>>>>> : t \in Truths }
              \cup { <<<<"Malf", m \o <<w>>>>, <<"Update", <<1>>>>>> : m \in {<<0,1,1,0,0,0>>, <<0,0,0,1,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,0>>, <<1,0,0,1,0,0>>}, w \in 1..2 }
              \cup { <<<<"Power", <<p>>>>, <<"Update", <<1>>>>>> : p \in 0..1 }
           [] s.kind \in {LIMIT, LIMITA} ->
              { <<<<"Sense", <<t, q[1], q[2]>>>>>> : t \in IF s.kind = LIMIT THEN {0, 1} ELSE Truths, q \in {<<0, 0>>, <<1, 0>>, <<1, 1>>} }
              \cup { <<<<"Failed", <<f>>>>>> : f \in 0..1 }
           [] s.kind = SMOKE ->
              { <<<<"Truth", <<t>>>>, <<"Update", <<1>>>>>> : t \in {0, 2, 4} } \cup { <<<<"Bit", <<b>>>>, <<"Update", <<1>>>>>> : b \in 0..1 }
              \cup { <<<<"Power", <<p>>>>, <<"Update", <<1>>>>>> : p \in 0..1 } \cup { <<<<"MalfSmoke", <<p, q>>>>, <<"Update", <<1>>>>>> : p \in 0..1, q \in 0..1 }

Inv(s) == TRUE
StepOK(s, in, t) ==
    (t.init /\ in[1] = "Update") =>
      /\ (t.kind = ANALOG =>
            /\ Why("range", t.a.out \in t.a.min..t.a.max)
            /\ Why("perfect", t.a.m.perfect => t.a.out = Limit(t.a.min, Convert(t.a.conv, t.a.truth), t.a.max))
            /\ Why("off", (~t.a.m.perfect /\ ~Powered(t.a)) => t.a.out = t.a.offv)
            /\ Why("stuck", (~t.a.m.perfect /\ Powered(t.a) /\ ~t.a.m.fail /\ t.a.m.stuck) => t.a.out = s.a.out))
      /\ (t.kind = SMOKE => /\ Why("obscuration range", t.obs \in t.omin..t.omax /\ t.sca \in 0..t.smax)
                            /\ Why("detector off", ~t.on => t.sobs = t.ooff /\ t.ssca = t.soff)
                            /\ Why("self test", (t.on /\ t.bit) => t.obs = t.omax))
Bound(s) == s.n <= MaxEvents /\ (s.kind = SMOKE /\ s.init => s.timer <= 12)
View(s) == [s EXCEPT !.n = 0]
=============================================================================
