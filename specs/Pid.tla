------------------------------ MODULE Pid ------------------------------
(* The PID controller (gunns-ts-models/common/controllers/generic/TsPidController). Times are in quarters of a second; input and
   setpoint are whole numbers divisible by 60, so that everything else is a whole number of 1/64. Gains are in quarters. *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxEvents, Ins, Times

Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
K == 64

(* cfg = <<P, I, D, interval, low, high, input, setpoint, timer, integral, output>>; state: output in 1/64, integral in quarters *)
S0(c) == [ p |-> c[1], i |-> c[2], d |-> c[3], every |-> c[4], lo |-> c[5] * K, hi |-> c[6] * K, in |-> c[7], sp |-> c[8],
           timer |-> c[9], sum |-> c[10], out |-> c[11] * K, err |-> c[7] - c[8], der |-> 0, ret |-> c[11] * K, n |-> 0 ]

Update(s0, dt) ==
    LET t == s0.timer + dt  s == [s0 EXCEPT !.timer = t, !.ret = s0.out] IN
    IF s.every <= 0 \/ t < s.every THEN s
    ELSE LET e == s.in - s.sp
             sum == s.sum + e * t
             der == ((e - s.err) * 4) \div t
             out == Clamp(s.lo, s.out + 16 * e * s.p + 4 * sum * s.i + 16 * der * s.d, s.hi)
         IN [s EXCEPT !.timer = 0, !.err = e, !.sum = sum, !.der = der, !.out = out, !.ret = out]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.ret = s0.out] IN
    CASE n = "Input"    -> [s EXCEPT !.in = a[1]]
      [] n = "Setpoint" -> [s EXCEPT !.sp = a[1]]
      [] n = "Update"   -> Update(s, a[1])
      [] n = "With"     -> Update([s EXCEPT !.in = a[2]], a[1])
      [] n = "Gains"    -> [s EXCEPT !.p = a[1], !.i = a[2], !.d = a[3]]
      [] n = "Interval" -> [s EXCEPT !.every = a[1]]
      [] n = "Limits"   -> [s EXCEPT !.lo = a[1] * K, !.hi = a[2] * K]
      [] n = "Reset"    -> S0(a)

Obs(s) == [out |-> s.out, ret |-> s.ret, err |-> s.err, sum |-> s.sum, der |-> s.der, timer |-> s.timer]
Match(s, o) == /\ Why("output", o.out = s.out /\ o.ret = s.ret)
               /\ Why("error", o.err = s.err)
               /\ Why("integral", o.sum = s.sum)
               /\ Why("derivative", o.der = s.der)
               /\ Why("timer", o.timer = s.timer)

Configs == CfgSet
Inputs(s) == IF s.n >= MaxEvents THEN {}
    ELSE {<<<<"Update", <<t>>>>>> : t \in Times}
         \cup {<<<<"With", <<t, x>>>>>> : t \in Times, x \in Ins}
         \cup {<<<<"Setpoint", <<x>>>>>> : x \in Ins}
Bound(s) == TRUE
View(s) == [s EXCEPT !.n = 0]
Inv(s) == s.timer >= 0
\* The output moves only when the interval is over, and then the timer starts again.
StepOK(s, in, t) ==
    /\ (t.out # s.out /\ in[1] # "Reset") => in[1] \in {"Update", "With"} /\ t.timer = 0 /\ s.timer + in[2][1] >= s.every
    /\ (in[1] = "Update" /\ s.timer + in[2][1] < s.every) => t.out = s.out /\ t.sum = s.sum
    /\ (in[1] \in {"Update", "With"} /\ t.out # s.out) => t.out >= t.lo /\ t.out <= t.hi
=============================================================================
