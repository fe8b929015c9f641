------------------------------ MODULE Thermostat ------------------------------
(* Heater control (gunns-ts-models/aspects/signal/effectors/thermostat): a thermostat commands its heater on and off from the
   temperatures its sensors report, between setpoints, by the logic it is configured with.  Temperatures are in quarters of a kelvin. *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxEvents, Temps

S == INSTANCE Sensors WITH CfgSet <- {}, MaxEvents <- 0, Truths <- {}

SINGLE == 0  OR == 1  AND == 2
B(x) == x = 1

(* cfg = <<logic, sensors, low setpoint, high setpoint, malf low, malf high, sensor min, sensor max, sensor's off value, first truth>> *)
S0(c) == [ logic |-> c[1], lo0 |-> c[3], hi0 |-> c[4], bias |-> 0,
           mlo |-> <<FALSE, c[5]>>, mhi |-> <<FALSE, c[6]>>, on |-> FALSE, off |-> FALSE, kill |-> FALSE,
           x |-> [i \in 1..c[2] |-> [S!AnalogOf(<<0, c[7], c[8], c[9], 0, 1, 0, 0, 0, 0, 0, 1>>, c[10]) EXCEPT !.out = S!Limit(c[7], c[10], c[8])]],
           nominal |-> FALSE, setpt |-> FALSE, actual |-> FALSE, lo |-> c[3], hi |-> c[4], n |-> 0 ]

\* What the sensors say to a heater that is on or off.
Asks(s, t, now, lo, hi) == IF t > hi THEN FALSE ELSE IF t < lo THEN TRUE ELSE now
Vote(s, x, now, lo, hi) ==
    IF s.logic = AND THEN \A i \in DOMAIN x : Asks(s, x[i].out, now, lo, hi)
    ELSE \E i \in DOMAIN x : Asks(s, x[i].out, now, lo, hi)

Update(s) ==
    LET x == [i \in DOMAIN s.x |-> S!UpdAnalog(s.x[i], 1, <<0, 0>>)]
        lo == s.lo0 + s.bias  hi == s.hi0 + s.bias
        nominal == Vote(s, x, s.nominal, lo, hi)
        mlo == IF s.mlo[1] THEN s.mlo[2] ELSE lo
        mhi == IF s.mhi[1] THEN s.mhi[2] ELSE hi
        setpt == IF s.mlo[1] \/ s.mhi[1] THEN Vote(s, x, s.setpt, mlo, mhi) ELSE nominal
    IN [s EXCEPT !.x = x, !.nominal = nominal, !.setpt = setpt, !.lo = mlo, !.hi = mhi,
                 !.actual = IF s.off THEN FALSE ELSE IF s.on THEN TRUE ELSE IF s.kill THEN FALSE ELSE setpt]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    CASE n = "Temp"     -> [s EXCEPT !.x[a[1]].truth = a[2]]
      [] n = "Sensor"   -> [s EXCEPT !.x[a[1]].m = [@ EXCEPT !.fail = B(a[2]), !.failv = a[3], !.off = B(a[4]), !.stuck = B(a[5]), !.perfect = B(a[6])]]
      [] n = "Setpoint" -> [s EXCEPT !.bias = a[1] - (s.lo0 + s.hi0) \div 2]
      [] n = "Bias"     -> [s EXCEPT !.bias = a[1]]
      [] n = "Low"      -> [s EXCEPT !.mlo = <<B(a[1]), a[2]>>]
      [] n = "High"     -> [s EXCEPT !.mhi = <<B(a[1]), a[2]>>]
      [] n = "Malf"     -> [s EXCEPT !.on = B(a[1]), !.off = B(a[2])]
      [] n = "Kill"     -> [s EXCEPT !.kill = B(a[1])]
      [] n = "Update"   -> Update(s)

Obs(s) == [nominal |-> s.nominal, setpt |-> s.setpt, actual |-> s.actual, lo |-> s.lo, hi |-> s.hi, t |-> [i \in DOMAIN s.x |-> s.x[i].out]]
Match(s, o) == /\ Why("command by the nominal setpoints", o.nominal = s.nominal)
               /\ Why("command by the setpoints", o.setpt = s.setpt)
               /\ Why("command to the heater", o.actual = s.actual)
               /\ Why("setpoints", o.lo = s.lo /\ o.hi = s.hi)
               /\ Why("sensed", o.t = [i \in DOMAIN s.x |-> s.x[i].out])

Configs == CfgSet
U == <<"Update", <<>>>>
Inputs(s) == IF s.n >= MaxEvents THEN {}
    ELSE {<<U>>}
         \cup {<<<<"Temp", <<i, t>>>>, U>> : i \in DOMAIN s.x, t \in Temps}
         \cup {<<<<"Sensor", <<i, f, 4 * 100, p, k, 0>>>>, U>> : i \in {1}, f \in 0..1, p \in {0}, k \in 0..1}
         \cup {<<<<"Bias", <<b>>>>, U>> : b \in {-40, 0, 40}}
         \cup {<<<<"Low", <<f, s.mlo[2]>>>>, U>> : f \in 0..1}
         \cup {<<<<"High", <<f, s.mhi[2]>>>>, U>> : f \in 0..1}
         \cup {<<<<"Malf", <<f, g>>>>, U>> : f \in 0..1, g \in 0..1}
         \cup {<<<<"Kill", <<f>>>>, U>> : f \in 0..1}
Bound(s) == TRUE
View(s) == [s EXCEPT !.n = 0]
Out(s) == {s.x[i].out : i \in DOMAIN s.x}
Inv(s) ==
    /\ s.logic \in {SINGLE, OR, AND}
StepOK(s, in, t) ==
    \/ in[1] # "Update"
    \/ /\ (\A v \in Out(t) : v > t.hi) => ~t.setpt
       /\ (t.lo <= t.hi /\ \A v \in Out(t) : v < t.lo) => t.setpt
       /\ \* between the setpoints nothing changes
          (t.mlo[1] \/ t.mhi[1]) /\ (\A v \in Out(t) : v >= t.lo /\ v <= t.hi) => t.setpt = s.setpt
       /\ t.off => ~t.actual
       /\ (t.on /\ ~t.off) => t.actual
       /\ (~t.on /\ ~t.off /\ ~t.kill) => t.actual = t.setpt
       /\ \* malfunctions of setpoints and commands don't touch the nominal command
          (\A v \in Out(t) : v >= t.lo0 + t.bias /\ v <= t.hi0 + t.bias) => t.nominal = s.nominal
=============================================================================
