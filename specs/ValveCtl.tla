------------------------------ MODULE ValveCtl ------------------------------
(* Valve controllers and assemblies (gunns-ts-models/common/controllers): the position a valve takes
   from its commands, its power, its manual override and its malfunctions, and what it draws and senses.
   Positions are in quarters of a command unit; the range of a valve is 8 units; flow areas in 1/256. *)
EXTENDS Integers, Sequences, TLC, Why

CONSTANTS CfgSet, MaxEvents, Dts, Ops

BASE == 0  POWERED == 1  TOGGLE == 2  OPENCLOSE == 3  POSITION == 4  SPEED == 5  DUAL == 6  TVALVE == 7
TOGGLEASM == 8  OPENCLOSEASM == 9  DUALASM == 10
Kind(k) == CASE k = TOGGLEASM -> TOGGLE [] k = OPENCLOSEASM -> OPENCLOSE [] k = DUALASM -> DUAL [] OTHER -> k
IsPowered(k) == Kind(k) \in {POWERED, TOGGLE, OPENCLOSE, POSITION, SPEED}
IsAsm(k) == k \in {TOGGLEASM, OPENCLOSEASM, DUALASM}
RANGE == 32

Abs(x) == IF x < 0 THEN -x ELSE x
Limit(lo, x, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* cfg = <<kind, min, fluid min, fluid max, position, manual, manual position, latch, reference command,
\*         transit time, interrupt at end of travel, supply, enabled, command, tolerance, sensor tolerance>>
Ref(c) == IF c[1] = POSITION THEN 1 ELSE c[9]     \* a position valve has a reference command of 1
Refused(c) == LET lo == 4 * c[2] hi == lo + RANGE IN
    \/ c[4] <= c[3] \/ c[5] < lo \/ c[5] > hi
    \/ c[6] = 1 /\ (c[7] < lo \/ c[7] > hi)
    \/ IsPowered(c[1]) /\ (c[10] = 0 \/ Ref(c) = 0)
    \/ Kind(c[1]) = DUAL /\ c[12] = 1 /\ c[13] = 1

Fluid(s, pos) == Limit(0, 32 * s.fmin + (s.fmax - s.fmin) * (pos - s.lo), 256)
\* The valve goes to pos, unless it is stuck, fails to a position or is moved by hand.
Move(s, pos) ==
    LET p == IF s.stuck THEN s.pos
             ELSE IF s.fail THEN s.failv
             ELSE IF s.man /\ ~s.manfail THEN s.manv ELSE pos
    IN [s EXCEPT !.isStuck = s.stuck \/ s.fail, !.lower = p <= s.lo, !.upper = p >= s.hi,
                 !.pos = Limit(s.lo, p, s.hi), !.fluid = Fluid(s, Limit(s.lo, p, s.hi))]

HasPower(s) == (s.supply \/ s.good) /\ ~s.pfail
Drive(s0, en, cmd, dt) ==
    LET s == [s0 EXCEPT !.en = en, !.cmd = cmd]
        pos == IF s.dstuck THEN s.pos
               ELSE IF s.dfail THEN s.dfailv
               ELSE IF ~HasPower(s) \/ ~en
                    THEN (CASE s.latch = 1 -> s.hi [] s.latch = 2 -> s.lo [] OTHER -> s.pos)
               ELSE s.pos + cmd * s.scale * dt
        up == cmd * s.scale > 0
        blocked == \/ s.stuck \/ s.dstuck
                   \/ s.pos <= s.lo /\ ~up
                   \/ s.pos >= s.hi /\ up
        power == IF ~(HasPower(s) /\ en) THEN 0
                 ELSE IF cmd = 0 \/ (s.man /\ ~s.manfail) THEN 1
                 ELSE IF blocked THEN 16 ELSE 4
    IN Move([s EXCEPT !.power = power], pos)

\* The toggle command fires once each time it is raised, armed again when it is let go.
Toggle(s, dt) ==
    IF dt = 0 THEN s
    ELSE IF Len(s.queue) > 0
    THEN LET RECURSIVE F(_, _, _)
             F(i, armed, n) ==
                 IF i > Len(s.queue) THEN <<armed, n>>
                 ELSE LET e == s.queue[i] \div 2 = 1  t == s.queue[i] % 2 = 1 IN
                      IF armed /\ t /\ e THEN F(i + 1, FALSE, n + 1)
                      ELSE IF ~armed /\ ~t /\ e THEN F(i + 1, TRUE, n) ELSE F(i + 1, armed, n)
             r == TLCEval(F(1, s.armed, 0))
             tog == r[2] % 2 = 1
             ens == LET RECURSIVE G(_) G(i) == IF i > Len(s.queue) THEN 0 ELSE s.queue[i] \div 2 + G(i + 1) IN G(1)
         IN [s EXCEPT !.armed = r[1], !.toggle = tog, !.count = @ + r[2],
                      !.cen = IF tog THEN TRUE ELSE 100 * ens >= 49 * Len(s.queue)]
    ELSE LET s1 == IF s.armed /\ s.toggle /\ s.cen THEN [s EXCEPT !.armed = FALSE]
                   ELSE IF ~s.armed /\ ~s.toggle /\ s.cen THEN [s EXCEPT !.armed = TRUE]
                   ELSE [s EXCEPT !.toggle = FALSE]
         IN [s1 EXCEPT !.count = IF s1.toggle THEN @ + 1 ELSE @]

SolenoidMove(s) ==
    LET op == s.supply /\ ~s.solo  cl == s.en /\ ~s.solc
        pos == IF op /\ ~cl THEN s.hi
               ELSE IF cl /\ ~op THEN s.lo
               ELSE IF s.latch = 1 THEN s.hi
               ELSE IF s.latch = 2 THEN s.lo
               ELSE IF 2 * s.pos >= s.lo + s.hi THEN s.hi ELSE s.lo
    IN Move([s EXCEPT !.loado = op, !.loadc = cl], pos)

TMove(s) ==
    LET s1 == IF s.sel \in 0..2
              THEN [s EXCEPT !.man = TRUE, !.manv = IF s.sel = 1 THEN s.hi ELSE s.lo,
                             !.bmanv = IF s.sel = 2 THEN s.hi ELSE s.lo]
              ELSE s
        a == Move(s1, s1.pos)
    IN [a EXCEPT !.bpos = s1.bmanv, !.bfluid = Fluid(s, s1.bmanv)]

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Control(s0, dt) ==
    LET k == Kind(s0.kind) IN
    CASE k = BASE     -> Move(s0, s0.pos)
      [] k = POWERED  -> Drive(s0, s0.en, s0.cmd, dt)
      [] k = TOGGLE   ->
           LET s == Toggle(s0, dt)
               mid == 2 * s.pos >= s.lo + s.hi
               \* a toggle carries the valve 8 reference commands' worth of travel in one step
               go == IF ~s.toggle \/ dt = 0 THEN 0
                     ELSE IF ~mid THEN (IF s.eot /\ s.so THEN 0 ELSE 8)
                     ELSE (IF s.eot /\ s.sc THEN 0 ELSE -8)
           IN Drive(s, s.cen, go, 1)
      [] k = OPENCLOSE ->
           LET s == s0
               c == IF s.oc = <<TRUE, FALSE>> /\ ~(s.eot /\ s.so) THEN 1
                    ELSE IF s.oc = <<FALSE, TRUE>> /\ ~(s.eot /\ s.sc) THEN -1 ELSE 0
               cmd == IF ~s.eot /\ s.unstowed THEN (IF s.handle THEN 1 ELSE -1) ELSE c
           IN Drive(s, s.cen, cmd, dt)
      [] k = POSITION ->
           LET s == s0
               d == s.pcmd - s.spos
               lim == dt * s.scale
               go == IF Abs(d) < s.tol \/ dt = 0 THEN 0 ELSE Limit(-lim, d, lim)
               t == Drive(s, s.cen, Sign(go), 0)   \* power and malfunctions as for a move of this sense
           IN IF s.dstuck \/ s.dfail \/ ~HasPower(s) \/ ~s.cen THEN t
              ELSE Move([t EXCEPT !.pos = s.pos], s.pos + go)
      [] k = SPEED    ->
           LET s == s0
               up == s.speed * s.scale
               c == IF s.eot /\ ((s.so /\ up > 0) \/ (s.sc /\ up < 0)) THEN 0 ELSE s.speed
           IN Drive(s, s.cen, c, dt)
      [] k = DUAL     -> SolenoidMove(s0)
      [] k = TVALVE   -> TMove(s0)

\* The limit switches of an assembly sense the position, and tell the controller.
Sense(s) == IF ~IsAsm(s.kind) THEN s
            ELSE LET o == IF s.mo[1] THEN s.mo[2] ELSE Abs(s.pos - s.hi) <= s.stol
                     c == IF s.mc[1] THEN s.mc[2] ELSE Abs(s.pos - s.lo) <= s.stol
                     t == [s EXCEPT !.outo = o, !.outc = c]
                 IN IF s.kind = DUALASM THEN t ELSE [t EXCEPT !.so = o, !.sc = c]

S0(c) ==
    LET lo == 4 * c[2]
        base == [ init |-> ~Refused(c), kind |-> c[1], lo |-> lo, hi |-> lo + RANGE, fmin |-> c[3], fmax |-> c[4],
                  pos |-> c[5], man |-> c[6] = 1, manv |-> c[7], latch |-> c[8],
                  scale |-> IF Ref(c) * c[10] = 0 THEN 0 ELSE Sign(Ref(c)) * (32 \div (Abs(Ref(c)) * c[10])),
                  eot |-> c[11] = 1, supply |-> c[12] = 1, en |-> c[13] = 1, cmd |-> c[14], tol |-> c[15], stol |-> c[16],
                  stuck |-> FALSE, fail |-> FALSE, failv |-> 0, manfail |-> FALSE,
                  dstuck |-> FALSE, dfail |-> FALSE, dfailv |-> 0, good |-> FALSE, pfail |-> FALSE,
                  isStuck |-> FALSE, lower |-> FALSE, upper |-> FALSE, fluid |-> 0, power |-> 0,
                  cen |-> c[13] = 1, toggle |-> FALSE, armed |-> TRUE, count |-> 0, queue |-> << >>,
                  so |-> c[5] >= lo + RANGE, sc |-> c[5] <= lo, oc |-> <<c[14] > 0, c[14] < 0>>,
                  unstowed |-> FALSE, handle |-> FALSE, pcmd |-> c[5], spos |-> c[5], speed |-> c[14],
                  solo |-> FALSE, solc |-> FALSE, loado |-> FALSE, loadc |-> FALSE,
                  sel |-> c[8], bmanv |-> 0, bpos |-> 0, bfluid |-> 0,
                  mo |-> <<FALSE, FALSE>>, mc |-> <<FALSE, FALSE>>, outo |-> FALSE, outc |-> FALSE, n |-> 0 ]
        s1 == Move(base, base.pos)
        s2 == IF IsPowered(c[1]) THEN Drive(s1, s1.en, s1.cmd, 0) ELSE s1
        s3 == IF c[1] \in {BASE, POWERED} \/ Kind(c[1]) = DUAL THEN s2 ELSE Control(s2, 0)
        s4 == IF IsAsm(c[1]) THEN [s3 EXCEPT !.outo = Abs(c[5] - s3.hi) <= s3.stol, !.outc = Abs(c[5] - s3.lo) <= s3.stol]
              ELSE s3
    IN IF base.init THEN s4 ELSE base

B(x) == x = 1
Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    IF ~s.init THEN s
    ELSE CASE n = "Supply"  -> [s EXCEPT !.supply = B(a[1])]
           [] n = "Enable"  -> [s EXCEPT !.cen = B(a[1]), !.en = IF s.kind = POWERED THEN B(a[1]) ELSE @]
           [] n = "Cmd"     -> [s EXCEPT !.cmd = a[1]]
           [] n = "Speed"   -> [s EXCEPT !.speed = a[1]]
           [] n = "OpenClose" -> [s EXCEPT !.oc = <<B(a[1]), B(a[2])>>]
           [] n = "Toggle"  -> [s EXCEPT !.toggle = B(a[1])]
           [] n = "Queue"   -> [s EXCEPT !.queue = a]
           [] n = "PosCmd"  -> [s EXCEPT !.pcmd = a[1]]
           [] n = "PosSensed" -> [s EXCEPT !.spos = a[1]]
           [] n = "Sensed"  -> [s EXCEPT !.so = B(a[1]), !.sc = B(a[2])]
           [] n = "Handle"  -> [s EXCEPT !.unstowed = B(a[1]), !.handle = B(a[2])]
           [] n = "Solenoid" -> [s EXCEPT !.supply = B(a[1]), !.en = B(a[2])]
           [] n = "Select"  -> [s EXCEPT !.sel = a[1]]
           [] n = "Manual"  -> [s EXCEPT !.man = B(a[1]), !.manv = a[2]]
           [] n = "SetPos"  -> [s EXCEPT !.pos = a[1]]
           [] n = "MalfValve" -> [s EXCEPT !.stuck = B(a[1]), !.fail = B(a[2]), !.failv = a[3], !.manfail = B(a[4])]
           [] n = "MalfDrive" -> [s EXCEPT !.dstuck = B(a[1]), !.dfail = B(a[2]), !.dfailv = a[3]]
           [] n = "MalfPower" -> [s EXCEPT !.good = B(a[1]), !.pfail = B(a[2])]
           [] n = "MalfSolenoid" -> [s EXCEPT !.solo = B(a[1]), !.solc = B(a[2])]
           [] n = "MalfSense" -> IF a[1] = 1 THEN [s EXCEPT !.mo = <<B(a[2]), B(a[3])>>] ELSE [s EXCEPT !.mc = <<B(a[2]), B(a[3])>>]
           [] n = "Update"  -> Sense(Control(s, a[1]))

Resistance(p) == CASE p = 0 -> -1 [] p = 1 -> 64 [] p = 4 -> 16 [] p = 16 -> 4
Obs(s) == IF ~s.init THEN [refused |-> TRUE]
          ELSE [ refused |-> FALSE, pos |-> s.pos, fluid |-> s.fluid, stuck |-> s.isStuck, lower |-> s.lower, upper |-> s.upper,
                 power |-> IF IsPowered(s.kind) THEN s.power ELSE 0,
                 res |-> IF IsPowered(s.kind) THEN Resistance(s.power) ELSE 0,
                 count |-> IF Kind(s.kind) = TOGGLE THEN s.count ELSE 0,
                 loads |-> IF Kind(s.kind) = DUAL THEN <<s.loado, s.loadc>> ELSE <<FALSE, FALSE>>,
                 sensed |-> IF IsAsm(s.kind) THEN <<s.outo, s.outc>> ELSE <<FALSE, FALSE>>,
                 b |-> IF s.kind = TVALVE THEN <<s.bpos, s.bfluid>> ELSE <<0, 0>> ]
Match(s, o) == Why("observed", Obs(s) = o)

---------------------------------------------------------------------------
Configs == CfgSet
Inputs(s) ==
    IF ~s.init THEN {}
    ELSE LET k == Kind(s.kind)
             on(b) == IF b THEN 0 ELSE 1
             acts == { << >>, <<"Manual", <<on(s.man), s.lo + 8>>>>, <<"SetPos", <<s.lo + 12>>>>,
                       <<"MalfValve", <<on(s.stuck), 0, 0, 0>>>>, <<"MalfValve", <<0, on(s.fail), s.hi + 4, 0>>>>,
                       <<"MalfValve", <<0, 0, 0, on(s.manfail)>>>> }
                 \cup (IF k \in {POWERED, TOGGLE, OPENCLOSE, POSITION, SPEED}
                       THEN { <<"Supply", <<on(s.supply)>>>>, <<"Enable", <<on(s.cen)>>>>, <<"MalfPower", <<on(s.good), 0>>>>, <<"MalfPower", <<0, on(s.pfail)>>>>,
                              <<"MalfDrive", <<on(s.dstuck), 0, 0>>>>, <<"MalfDrive", <<0, on(s.dfail), s.lo + 4>>>> } ELSE {})
                 \cup (IF k = POWERED THEN { <<"Cmd", <<c>>>> : c \in {-1, 0, 1} } ELSE {})
                 \cup (IF k = SPEED THEN { <<"Speed", <<c>>>> : c \in {-1, 0, 2} } ELSE {})
                 \cup (IF k = TOGGLE THEN { <<"Toggle", <<1>>>>, <<"Toggle", <<0>>>>, <<"Queue", << >>>>, <<"Queue", <<3, 2, 3>>>>, <<"Queue", <<3, 2>>>>, <<"Queue", <<0, 1>>>> } ELSE {})
                 \cup (IF k = OPENCLOSE THEN { <<"OpenClose", p>> : p \in {<<1,0>>, <<0,1>>, <<1,1>>, <<0,0>>} }
                                             \cup { <<"Handle", p>> : p \in {<<1,0>>, <<1,1>>, <<0,0>>} } ELSE {})
                 \cup (IF k \in {OPENCLOSE, TOGGLE, SPEED} /\ ~IsAsm(s.kind)
                       THEN { <<"Sensed", p>> : p \in {<<1,0>>, <<0,1>>, <<0,0>>} } ELSE {})
                 \cup (IF k = POSITION THEN { <<"PosCmd", <<p>>>> : p \in {s.lo, s.hi - 5, s.hi + 8} } \cup { <<"PosSensed", <<s.pos>>>> } ELSE {})
                 \cup (IF k = DUAL THEN { <<"Solenoid", p>> : p \in {<<1,0>>, <<0,1>>, <<1,1>>, <<0,0>>} }
                                        \cup { <<"MalfSolenoid", p>> : p \in {<<1,0>>, <<0,1>>, <<0,0>>} } ELSE {})
                 \cup (IF k = TVALVE THEN { <<"Select", <<p>>>> : p \in 0..3 } ELSE {})
                 \cup (IF IsAsm(s.kind) THEN { <<"MalfSense", <<w, 1, v>>>> : w \in 1..2, v \in 0..1 } \cup { <<"MalfSense", <<1, 0, 0>>>> } ELSE {})
             use == { x \in acts : k # TVALVE \/ x = << >> \/ x[1] # "Manual" }
         IN { (IF x = << >> THEN << >> ELSE <<x>>) \o <<<<"Update", <<d>>>>>> : x \in use, d \in Dts }

Inv(s) == s.init => s.fluid \in 0..256 /\ s.power \in {0, 1, 4, 16}
\* What the property says of every update, whatever the controller.
StepOK(s, in, t) ==
    (s.init /\ in[1] = "Update") =>
       /\ Why("position range", t.pos \in t.lo..t.hi)
       /\ Why("limit flags", (t.lower => t.pos = t.lo) /\ (t.upper => t.pos = t.hi))
       /\ Why("stuck valve moved", t.stuck => t.pos = Limit(t.lo, s.pos, t.hi))
       /\ Why("failed position", (t.fail /\ ~t.stuck) => t.pos = Limit(t.lo, t.failv, t.hi))
       /\ Why("manual position", (t.man /\ ~t.manfail /\ ~t.stuck /\ ~t.fail) => t.pos = Limit(t.lo, t.manv, t.hi))
       /\ Why("power", IsPowered(t.kind) => ((t.power = 0) <=> ~(HasPower(t) /\ t.en)))
       /\ Why("rest position",
              (IsPowered(t.kind) /\ t.power = 0 /\ ~t.stuck /\ ~t.fail /\ ~(t.man /\ ~t.manfail) /\ ~t.dstuck /\ ~t.dfail)
                 => CASE t.latch = 1 -> t.pos = t.hi [] t.latch = 2 -> t.pos = t.lo
                      [] OTHER -> t.pos = Limit(t.lo, s.pos, t.hi))
Bound(s) == s.n <= MaxEvents
View(s) == [s EXCEPT !.n = 0, !.count = @ % 2]
=============================================================================
