------------------------------ MODULE Motor ------------------------------
(* Motors and their controller (gunns-ts-models/common/controllers/fluid/TsPumpMotorController, common/effectors/mechanical/motor:
   DcDynPumpMotor, TsDcPwmDynMotor).  Kind 0 is a pump motor in its controller, kind 1 a motor fed with a pulse width.

   Steps take 1/8 s. Units: mV, mA, 0.01 W, 1e-5 N m, 0.1 rpm, pulse widths and speed errors 1e-5, resistances 0.001 ohm.
   Continuous quantities are predicted here and compared within what the rounding explains; each step starts from what was observed
   of the last (Absorb).  What is powered, tripped and starting up is exact. *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxEvents, MaxSteps

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Clamp(lo, x, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
ONE == 100000
NOLIMIT == 2000000000
B(x) == x = 1

(* cfg = <<kind, ...>>
   0: <<2 forcing gain 0.01, 3 damping gain 0.01, 4 damping cutoff 0.01, 5 trip K, 6 reset K, 7 min V, 8 max V, 9 controller W, 10 noise rpm,
        11 its quarter turns per step, 12 startup A, 13 winding 0.01 ohm, 14 torque 0.01 N m/A, 15 friction 1e-6 N m/rpm, 16 its least rpm,
        17 inertia 1e-4 kg m2>>
   1: <<2 waste %, 3 stall 0.001 N m/V, 4 stall 1e-5 N m/V2, 5 friction 1e-5 N m, 6 back-EMF 1e-4 V/rpm, 7 armature 0.01 ohm, 8 inertia 1e-4,
        9 speed/load 10 rpm/(N m)>> *)
S0(c) == [ c |-> c, volts |-> 0, speed |-> 0, sens |-> 0, temp |-> 0, enable |-> FALSE, cmd |-> 0, phase |-> 0, start |-> FALSE, ld |-> 0,
           failp |-> FALSE, ovp |-> <<FALSE, 0>>, ovc |-> <<FALSE, 0>>, deg |-> <<FALSE, 0>>, jam |-> <<FALSE, 0>>, ovs |-> <<FALSE, 0>>, heat |-> <<FALSE, 0>>,
           trip |-> FALSE, bus |-> FALSE, run |-> FALSE, pw |-> 0, err |-> 0, lim |-> NOLIMIT, in |-> 0, v0 |-> 0, open |-> FALSE, pwtol |-> 0, errtol |-> 0,
           stepped |-> FALSE, n |-> 0, steps |-> 0 ]

Supply(s) == IF s.ovp[1] THEN s.ovp[2] ELSE s.volts
Emf(k, v) == LET x == k * v IN x \div 10 + (x * 472) \div 100000          \* torque constant 0.01 N m/A, speed: mV
Ohms(r, deg) == IF ~deg[1] THEN r * 10 ELSE IF deg[2] >= 100 THEN NOLIMIT ELSE (r * 1000) \div (100 - deg[2])
Speed(v, t, j) == Max(0, v + (t + (t * 194) \div 1000) \div j)
Work(ld, v) == LET p == (ld \div 100) * (v \div 10) IN p \div 100 + ((p \div 1000) * 472) \div 1000     \* a torque at a speed: 0.01 W

(* ---- the controller *)
Filter(s) ==
    LET g == s.c
        want == IF s.ovc[1] THEN s.ovc[2] ELSE s.cmd
    IN IF ~s.run \/ want <= 0 THEN [s EXCEPT !.pw = 0, !.err = 0, !.start = TRUE, !.open = FALSE, !.pwtol = 0, !.errtol = 0]
       ELSE LET ph == (s.phase + g[11]) % 4
                c == want + (CASE ph = 1 -> g[10] [] ph = 3 -> -g[10] [] OTHER -> 0)
                err == IF c > 0 THEN ((c * 10 - s.sens) * 10000) \div c ELSE -ONE
                d == err - s.err
                ratio == (d * 1000) \div Max(Abs(err), 10)
                damped == Abs(err) > g[4] * 1000
                p == s.pw + (err * g[2]) \div 100
                tol == 3 + 6000 \div Max(c, 100)
            IN [s EXCEPT !.phase = ph, !.err = err, !.pw = Clamp(0, IF damped THEN p + ratio * g[3] ELSE p, ONE), !.start = @ /\ damped,
                         !.open = Abs(Abs(err) - g[4] * 1000) <= tol, !.errtol = tol,
                         !.pwtol = 4 + (tol * g[2]) \div 50 + (IF damped THEN g[3] * (2 + tol * ((Abs(ratio) + 2000) \div Max(Abs(err), 10) + 1)) ELSE 0)]
MotorStep(s, mv) ==
    LET g == s.c
        r == Ohms(g[13], s.deg)
        i == Clamp(0, ((mv - Emf(g[14], s.speed)) * 1000) \div r, s.lim)
        t == g[14] * i + s.ld - (IF s.jam[1] THEN (((g[14] * mv) \div r) * 1000 * s.jam[2]) \div 100 ELSE 0) - (g[15] * Max(s.speed, g[16] * 10)) \div 100
    IN IF s.ovs[1] THEN s.ovs[2] * 10 ELSE Speed(s.speed, t, g[17])
Pump(s0) ==
    LET bus == ~s0.failp /\ Supply(s0) >= s0.c[7] /\ Supply(s0) <= s0.c[8]
        trip == bus /\ (s0.temp > s0.c[5] \/ s0.trip) /\ s0.temp >= s0.c[6]
        s == Filter([s0 EXCEPT !.bus = bus, !.trip = trip, !.run = bus /\ s0.enable /\ ~trip])
        t == [s EXCEPT !.lim = IF s.start THEN s.c[12] * 1000 ELSE NOLIMIT]
    IN [t EXCEPT !.v0 = s.speed, !.speed = MotorStep(t, (t.pw * Supply(t)) \div 100)]

(* ---- the motor with a pulse width *)
Stall(s) == LET x == s.c[3] * s.volts * 100 + s.c[4] * s.volts * s.volts IN IF s.deg[1] THEN (x * (100 - s.deg[2])) \div 100 ELSE x
Drive(s, v) == (Max(Stall(s) - (v * 1000) \div s.c[9], 0) * s.in) \div 100
Pwm(s) == LET t == Drive(s, s.speed) + s.ld - (IF s.jam[1] THEN (Stall(s) * s.jam[2]) \div 100 ELSE 0) + s.c[5]
          IN [s EXCEPT !.v0 = s.speed, !.speed = IF s.ovs[1] THEN s.ovs[2] * 10 ELSE Speed(s.speed, t, s.c[8])]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1, !.stepped = FALSE] IN
    CASE n = "Volts"   -> [s EXCEPT !.volts = a[1]]
      [] n = "Sense"   -> [s EXCEPT !.sens = IF a[1] < 0 THEN s.speed ELSE a[1] * 10]
      [] n = "Temp"    -> [s EXCEPT !.temp = a[1]]
      [] n = "Command" -> [s EXCEPT !.enable = B(a[1]), !.cmd = a[2]]
      [] n = "Load"    -> [s EXCEPT !.ld = a[1] + a[2]]
      [] n = "Width"   -> [s EXCEPT !.in = a[1]]
      [] n = "Power"   -> [s EXCEPT !.failp = B(a[1]), !.ovp = <<B(a[2]), a[3]>>]
      [] n = "Speed"   -> [s EXCEPT !.ovc = <<B(a[1]), a[2]>>]
      [] n = "Degrade" -> [s EXCEPT !.deg = <<B(a[1]), a[2]>>]
      [] n = "Jam"     -> [s EXCEPT !.jam = <<B(a[1]), a[2]>>]
      [] n = "Spin"    -> [s EXCEPT !.ovs = <<B(a[1]), a[2]>>]
      [] n = "Heat"    -> [s EXCEPT !.heat = <<B(a[1]), a[2]>>]
      [] n = "Step"    -> LET t == [s EXCEPT !.stepped = TRUE, !.steps = @ + 1] IN IF s.c[1] = 0 THEN Pump(t) ELSE Pwm(t)

Obs(s) == [bus |-> s.bus, run |-> s.run, trip |-> s.trip, start |-> s.start, pw |-> s.pw, err |-> s.err, speed |-> s.speed]
Within(x, y, tol) == Abs(x - y) <= tol
Heating(s, o) ==
    LET useful == -Work(o.ext, o.speed)  tol == 4 + o.speed \div 600 + Abs(o.ext) \div 8000 + Abs(useful) \div 2000
    IN /\ Why("power", Within(o.p, ((o.mv \div 10) * o.i) \div 1000, 3 + o.i \div 90 + o.p \div 5000))
       /\ Why("waste heat", Within(o.heat, Max(o.p - useful, 0) + (IF s.heat[1] THEN s.heat[2] * 100 ELSE 0), tol))
       /\ Why("efficiency", IF o.mv = 0 THEN o.eff = 0 ELSE o.p < 1000 \/ Abs(useful) > 2000000 \/ Within(o.eff, (useful * 1000) \div o.p, 2 + (1000 * tol) \div o.p + Abs(useful) \div o.p))
External(s, o, stall) == Why("load torque", Within(o.ext, s.ld - (IF s.jam[1] THEN (stall * s.jam[2]) \div 100 ELSE 0), 3 + Abs(o.ext) \div 3000))
Match(s, o) ==
    ~s.stepped \/
    IF s.c[1] = 0 THEN
        LET r == Ohms(s.c[13], s.deg)  st == IF s.open THEN o.start ELSE s.start
            i == ((o.mv - Emf(s.c[14], s.v0)) * 1000) \div r
            v == Supply(s)
        IN /\ Why("controller powered", o.bus = s.bus)
           /\ Why("motor powered", o.run = s.run)
           /\ Why("over-temperature trip", o.trip = s.trip)
           /\ Why("startup", o.start = st)
           /\ Why("speed error", Within(o.err, s.err, s.errtol))
           /\ Why("pulse width", s.open \/ Within(o.pw, s.pw, s.pwtol))
           /\ Why("pulse width range", o.pw >= 0 /\ o.pw <= ONE)
           /\ Why("motor voltage", Within(o.mv, (o.pw * v) \div 100, 3 + v \div 100))
           /\ Why("current limit", (~st \/ o.i <= s.c[12] * 1000) /\ o.i >= 0)
           /\ Why("current", Within(o.i, Clamp(0, i, IF st THEN s.c[12] * 1000 ELSE NOLIMIT), 2 + (6000 + Abs(i)) \div r))
           /\ Why("drive torque", Within(o.drive, s.c[14] * o.i, 2 + s.c[14]))
           /\ Why("stall torque", Within(o.stall, ((s.c[14] * o.mv) \div r) * 1000 + (((s.c[14] * o.mv) % r) * 1000) \div r, 3 + (s.c[14] * 2000 + o.stall) \div r))
           /\ External(s, o, o.stall)
           /\ Why("friction", Within(-o.fric, (s.c[15] * Max(s.v0, s.c[16] * 10)) \div 100, 2 + s.c[15] \div 100))
           /\ Why("speed", Within(o.speed, IF s.ovs[1] THEN s.ovs[2] * 10 ELSE Speed(s.v0, o.drive + o.ext + o.fric, s.c[17]), 4))
           /\ Heating(s, [o EXCEPT !.heat = @])
           /\ LET watts == (IF s.bus THEN s.c[9] * 100 ELSE 0) + (IF s.run THEN o.p ELSE 0)
              IN /\ Why("total heat", Within(o.total, (IF s.bus THEN s.c[9] * 100 ELSE 0) + (IF s.run THEN o.heat ELSE 0), 3))
                 /\ Why("total current", v = 0 \/ Within(o.amps, (watts * 10) \div v, 3 + 30 \div v + watts \div (50 * v)))
                 /\ Why("total power", s.ovp[1] \/ v = 0 \/ Within(o.watts, watts, 4 + watts \div 2000))
    ELSE
        LET pwf == s.c[2] * 100 + s.in * (100 - s.c[2])       \* 1e-4
            emf == (s.c[6] * o.speed) \div 100
            i0 == (((s.volts * 1000 - emf) * 10) \div s.c[7]) * 10
            i1 == IF i0 > 0 THEN (((i0 * (pwf \div 10)) \div 1000) * (IF s.deg[1] THEN 100 - s.deg[2] ELSE 100)) \div 100 ELSE 0
            gen == (emf * 100) \div s.c[7]
        IN /\ Why("stall torque", Within(o.stall, Stall(s), 2 + Stall(s) \div 100000))
           /\ Why("drive torque", Within(o.drive, Drive(s, s.v0), 3 + 2000 \div s.c[9]))
           /\ External(s, o, o.stall)
           /\ Why("speed", Within(o.speed, IF s.ovs[1] THEN s.ovs[2] * 10 ELSE Speed(s.v0, o.drive + o.ext + s.c[5], s.c[8]), 4))
           /\ Why("current", Within(o.i, i1, 20 + i1 \div 200 + (s.c[6] + 100) \div s.c[7]))
           /\ Why("generated current", Within(o.gen, Max(gen - o.i, 0), 4 + (200 + s.c[6]) \div s.c[7]))
           /\ Heating(s, [o EXCEPT !.mv = s.volts * 1000])
Absorb(s, o) == IF ~s.stepped THEN s ELSE [s EXCEPT !.pw = o.pw, !.err = o.err, !.start = o.start, !.speed = o.speed]

Configs == CfgSet
St == <<"Step", <<>>>>
FollowStep == <<<<"Sense", <<-1>>>>, St>>
Inputs(s) == IF s.steps >= MaxSteps THEN {}
    ELSE IF s.c[1] = 1 THEN {<<<<"Width", <<w>>>>, <<"Volts", <<v>>>>, St>> : w \in {0, 50, 100}, v \in {0, 28}} \cup {<<<<"Jam", <<j, 100>>>>, St>> : j \in 0..1}
                             \cup {<<<<"Degrade", <<j, 50>>>>, St>> : j \in 0..1}
    ELSE {FollowStep}
         \cup {<<<<"Command", <<e, c>>>>, <<"Sense", <<-1>>>>, St>> : e \in 0..1, c \in {0, 2000}}
         \cup {<<<<"Volts", <<v>>>>, <<"Sense", <<-1>>>>, St>> : v \in {0, 28, 40}}
         \cup {<<<<"Temp", <<k>>>>, St>> : k \in {300, 340, 380}}
         \cup {<<<<"Power", <<f, g, 28>>>>, St>> : f \in 0..1, g \in 0..1}
         \cup {<<<<"Speed", <<f, 1000>>>>, St>> : f \in 0..1}
         \cup {<<<<"Spin", <<1, 2000>>>>, <<"Sense", <<2000>>>>, St>>, <<<<"Spin", <<0, 0>>>>, St>>}
Bound(s) == TRUE
View(s) == [s EXCEPT !.n = 0, !.stepped = FALSE]
Inv(s) == /\ s.pw >= 0 /\ s.pw <= ONE /\ s.speed >= 0
          /\ (s.stepped /\ s.c[1] = 0) => (s.run => s.bus /\ s.enable /\ ~s.trip) /\ (s.pw > 0 => s.run)
StepOK(s, in, t) ==
    \/ in[1] # "Step" \/ s.c[1] = 1
    \/ /\ (s.trip /\ t.bus /\ t.temp >= t.c[6]) => t.trip            \* stays tripped until it has cooled down or lost power
       /\ (~s.trip /\ t.trip) => t.temp > t.c[5]
       /\ (t.start /\ ~s.start) => ~t.run \/ (IF t.ovc[1] THEN t.ovc[2] ELSE t.cmd) <= 0
=============================================================================
