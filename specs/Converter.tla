----------------------------- MODULE Converter -----------------------------
(* A DC-DC converter in a network (aspects/electrical/Converter: GunnsElectConverterInput, GunnsElectConverterOutput, with
   aspects/electrical/TripLogic/GunnsTripLogic): a supply of voltage E behind a conductance feeds the input side; the output side
   feeds a load, to which a battery may be connected as well.

   What the converter settles on in a major step is decided here: which protections trip (the one of the lowest number first, judged
   on settled solutions), which limit it regulates to, and that a trip stays until it is reset. What it does then is a relation
   between what is observed: Match.

   Predictions are in 0.01 V and 0.01 A, load conductances in 0.1 S. A prediction that depends on a comparison too close to call is
   not made ("amb"): then only what holds in any case is required, and the state is taken over from what was observed. *)
EXTENDS Integers, Sequences, FiniteSets, Why

CONSTANTS CfgSet, SetpointSet, SupplySet, LoadSet, BatterySet, MaxSteps

Trips == {"ov", "uv", "oc", "iov", "iuv"}
TripAt == <<"ov", "uv", "oc", "iov", "iuv">>
InTrips == {"iov", "iuv"}
OutTrips == {"ov", "uv", "oc"}
VOLT == 0  XFMR == 1  CURR == 2  POWR == 3
NONE == 0  OC == 1  OV == 2  UV == 3
GS == 20        \* supply conductance, S
GB == 10        \* battery conductance, 0.1 S
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo + 1 >= hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Root(x, 0, 40000)

(* cfg = <<regulator, limiting, output first, output conductance S, efficiency %, output over-voltage V, under-voltage V,
           over-current A, output priority, input under-voltage V, over-voltage V, input priority, supply V, setpoint, load, battery V>> *)
S0(c) == [ reg |-> c[1], limiting |-> c[2] = 1, outFirst |-> c[3] = 1, g |-> c[4], eff |-> c[5],
           lv |-> [t \in Trips |-> CASE t = "ov" -> c[6] [] t = "uv" -> c[7] [] t = "oc" -> c[8] [] t = "iuv" -> c[10] [] OTHER -> c[11]],
           pri |-> [t \in Trips |-> IF t \in OutTrips THEN c[9] ELSE c[12]],
           e |-> c[13], sp |-> c[14], gl |-> c[15], eb |-> c[16], ie |-> TRUE, oe |-> TRUE, bo |-> 0, bi |-> 0,
           malf |-> [t \in Trips |-> 0], tr |-> {}, lim |-> NONE, pow |-> FALSE, rstI |-> FALSE, rstO |-> FALSE,
           \* of the last step
           amb |-> FALSE, on |-> FALSE, inOn |-> TRUE, avail |-> FALSE, vin |-> 0, stepped |-> FALSE, steps |-> 0, idle |-> TRUE, lastV |-> 0, lastI |-> 0 ]

Regulates(s) == s.reg \in {VOLT, XFMR}
Gb(s) == IF s.eb > 0 THEN GB ELSE 0
V0(s) == (s.eb * 100 * Gb(s)) \div (Gb(s) + s.gl)
On(s, m) == s.oe /\ m.avail /\ m.tr \cap OutTrips = {}
InOn(s, tr) == s.ie /\ tr \cap InTrips = {} /\ s.bi < 1000
\* The current a current regulator is after, in 0.01 A.
Goal(s) == IF s.reg = CURR THEN (s.sp * (1000 - s.bo)) \div 10 ELSE (Sqrt(s.sp * s.gl * 1000) * (1000 - s.bo)) \div 1000
\* The voltage it regulates to, if it regulates voltage.
Source(s, m, vin) == CASE m.lim = OV -> s.lv["ov"] * 100 [] m.lim = UV -> s.lv["uv"] * 100
                  [] s.reg = VOLT -> s.sp * 100 [] OTHER -> IF InOn(s, m.tr) THEN (vin * s.sp) \div 1000 ELSE 0
AsVoltage(s, m) == IF Regulates(s) THEN m.lim # OC ELSE m.lim \in {OV, UV}
G10(s) == (s.g * (1000 - s.bo)) \div 100
OutAt(s, m, vin) ==
    IF ~On(s, m) THEN [v |-> V0(s), i |-> 0, src |-> 0]
    ELSE IF AsVoltage(s, m)
         THEN LET vs == Source(s, m, vin) IN
              IF V0(s) >= vs THEN [v |-> V0(s), i |-> 0, src |-> vs]
              ELSE LET v == (vs * G10(s) + s.eb * 100 * Gb(s)) \div (G10(s) + Gb(s) + s.gl)
                   IN [v |-> v, i |-> Max(0, (v * (s.gl + Gb(s)) - s.eb * 100 * Gb(s)) \div 10), src |-> vs]
         ELSE LET i == IF m.lim = OC THEN (IF Regulates(s) THEN s.lv["oc"] * 100 ELSE (s.lv["oc"] * (1000 - s.bo)) \div 10) ELSE Goal(s)
              IN [v |-> (i * 10 + s.eb * 100 * Gb(s)) \div (s.gl + Gb(s)), i |-> i, src |-> 0]
\* Power taken from the supply (0.0001 W) and the input voltage under it
Power(s, o) == LET p == ((o.v * o.i + (o.i * o.i) \div s.g) \div s.eff) * 100 IN IF s.bi < 1000 THEN (p \div ((1000 - s.bi) \div 100)) * 10 ELSE p
Limited(s) == s.lv["iuv"] * 99
InVolts(s, m, o) ==
    LET e == s.e * 100  p == Power(s, o)
        d == (e * e) - 4 * (p \div GS)
        v == IF d < 0 THEN 0 ELSE (e + Sqrt(d)) \div 2
    IN IF ~InOn(s, m.tr) \/ p = 0 THEN e
       ELSE IF s.lv["iuv"] > 0 /\ v < Limited(s) THEN e - (p \div Limited(s)) \div GS ELSE v
\* A transformer's voltage follows the input's.
RECURSIVE Coupled(_, _, _, _)
Coupled(s, m, vin, n) == LET o == OutAt(s, m, vin) IN IF n = 0 \/ s.reg # XFMR THEN o ELSE Coupled(s, m, InVolts(s, m, o), n - 1)
OutSol(s, m) == Coupled(s, m, s.e * 100, 6)
Overload(s, m, o) == InOn(s, m.tr) /\ (Power(s, o) \div GS) > s.e * s.e * 2200

Sees(s, o, vin, t) == CASE t \in {"ov", "uv"} -> o.v [] t = "oc" -> o.i [] OTHER -> vin
True(s, o, vin, t) == IF t \in {"uv", "iuv"} THEN Sees(s, o, vin, t) < s.lv[t] * 100 ELSE Sees(s, o, vin, t) > s.lv[t] * 100
Band(x) == x \div 40 + 12
Near(x, y) == Abs(x - y) <= Band(Max(Abs(x), Abs(y)))
\* The protections that look at a solution.
Looks(s) == (IF s.ie THEN InTrips ELSE {}) \cup
            (IF s.oe THEN (IF s.limiting /\ ~Regulates(s) THEN {} ELSE {"ov", "uv"}) \cup (IF s.limiting THEN {} ELSE {"oc"}) ELSE {})
\* The limit regulated to, given a settled solution (limiting enabled, converter on).
NextLimit(s, m, o, vin) ==
    LET can(t) == s.lv[t] > 0 /\ m.flips < 4
        ov == can("ov") /\ o.v > s.lv["ov"] * 100
        oc == can("oc") /\ o.i > s.lv["oc"] * 100
    IN IF Regulates(s)
       THEN CASE m.lim = OC -> (IF o.v > Source(s, [m EXCEPT !.lim = NONE], vin) THEN NONE ELSE OC)
              [] OTHER -> (IF oc THEN OC ELSE NONE)
       ELSE CASE m.lim = OC -> (IF ov THEN OV ELSE IF o.v > s.lv["uv"] * 100 THEN NONE ELSE OC)
              [] m.lim = UV -> (IF oc /\ can("uv") THEN OC ELSE IF ov THEN OV ELSE IF o.v > s.lv["uv"] * 100 + 5 \/ o.i < Goal(s) THEN NONE ELSE UV)
              [] m.lim = OV -> (IF can("uv") /\ o.v < s.lv["uv"] * 100 THEN UV ELSE IF o.i > Goal(s) \/ Goal(s) = 0 THEN UV ELSE OV)
              [] OTHER -> (IF ov THEN OV ELSE IF can("uv") /\ o.v < s.lv["uv"] * 100 THEN UV ELSE NONE)
\* Comparisons too close to call
Close(s, m, o, vin) ==
    \/ \E t \in Looks(s) \ m.tr : s.lv[t] > 0 /\ Near(Sees(s, o, vin, t), s.lv[t] * 100)
    \/ /\ s.limiting /\ On(s, m)
       /\ \/ \E t \in {"ov", "uv"} : s.lv[t] > 0 /\ Near(o.v, s.lv[t] * 100) /\ ~AsVoltage(s, m)
          \/ s.lv["oc"] > 0 /\ Near(o.i, s.lv["oc"] * 100) /\ AsVoltage(s, m)
          \/ Regulates(s) /\ m.lim = OC /\ Near(o.v, Source(s, [m EXCEPT !.lim = NONE], vin))
          \/ ~Regulates(s) /\ m.lim \in {OV, UV} /\ (Near(o.i, Goal(s)) \/ Near(o.v, V0(s)))
    \/ On(s, m) /\ s.eb > 0 /\ AsVoltage(s, m) /\ Near(V0(s), Source(s, m, vin))
    \/ Overload(s, m, o)
    \/ s.e = 0 /\ Power(s, o) > 0 /\ InOn(s, m.tr)
    \* whether a converter whose input is cut while it delivers power trips is left open
    \/ s.bi = 1000 /\ s.ie /\ s.lv["iuv"] > 0

Inhibited(s) == {t \in Trips : s.malf[t] = 2}
RECURSIVE Settle(_, _, _)
Settle(s, m, fuel) ==
    LET o == OutSol(s, m)
        vin == InVolts(s, m, o)
        cleared == m.tr \cap Inhibited(s) \cap Looks(s)
        tr1 == m.tr \ cleared
        can == {t \in Looks(s) : s.lv[t] # 0 /\ s.pri[t] >= 1 /\ t \notin tr1 /\ s.malf[t] # 2}
        true == {t \in can : s.malf[t] = 1 \/ True(s, o, vin, t)}
        now == {t \in true : s.malf[t] = 1 \/ s.pri[t] = m.k}
        lim == IF s.limiting /\ On(s, m) THEN NextLimit(s, m, o, vin) ELSE m.lim
        t == [m EXCEPT !.tr = tr1 \cup now, !.lim = lim, !.flips = IF lim # m.lim /\ lim # NONE THEN @ + 1 ELSE @]
    IN IF fuel = 0 \/ m.flips > 3 \/ Close(s, m, o, vin) \/ ((s.limiting \/ s.eb > 0) /\ cleared # {}) THEN [m EXCEPT !.amb = TRUE, !.o = o, !.vin = vin]
       ELSE IF now # {} \/ lim # m.lim THEN Settle(s, [t EXCEPT !.k = 1], fuel - 1)
       ELSE IF true # {} THEN Settle(s, [t EXCEPT !.k = IF OutSol(s, t) # o \/ InVolts(s, t, o) # vin THEN 1 ELSE @ + 1], fuel - 1)
       \* (a trip inhibited just now has its effect from the next solution on)
       ELSE [t EXCEPT !.o = o, !.vin = vin, !.on = On(s, m), !.inOn = InOn(s, m.tr)]

Step(s0) ==
    LET \* resetting the output side resets both sides, at the output's turn
        trO == IF s0.rstO THEN {} ELSE IF s0.rstI THEN s0.tr \ InTrips ELSE s0.tr
        \* the output learns of the input's state from whichever side goes first
        avail == s0.pow /\ InOn(s0, IF s0.outFirst THEN (IF s0.rstO THEN {} ELSE s0.tr) ELSE IF s0.rstI THEN s0.tr \ InTrips ELSE s0.tr)
        s == [s0 EXCEPT !.tr = trO, !.rstI = FALSE, !.rstO = FALSE, !.lim = IF s0.oe /\ s0.limiting THEN @ ELSE NONE]
        m == Settle(s, [tr |-> trO, lim |-> s.lim, k |-> 1, flips |-> 0, avail |-> avail,
                       amb |-> FALSE, o |-> <<>>, vin |-> 0, on |-> FALSE, inOn |-> FALSE], 40)
        \* when the input trips in the first solution, an output that a battery held in reverse has not come on yet
        \* (nor is a step determined that changes the output's current and not its voltage)
        first == OutSol(s, [tr |-> trO, lim |-> s.lim, avail |-> avail])
        same(x) == Abs(x.v * 10 - s.lastV) <= 30 /\ Abs(x.i * 10 - s.lastI) > 50
        amb == m.amb \/ same(first) \/ same(m.o) \/ (s.eb > 0 /\ s.idle /\ ~(m.tr \cap InTrips \subseteq trO))
    IN [s EXCEPT !.tr = m.tr, !.lim = m.lim, !.amb = amb, !.on = m.on, !.inOn = m.inOn, !.avail = avail, !.vin = m.vin,
                 !.pow = s.e > 0 \/ (amb /\ s.pow), !.stepped = TRUE, !.steps = @ + 1,
                 !.idle = m.o.i = 0]

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.stepped = FALSE] IN
    CASE n = "Supply"   -> [s EXCEPT !.e = a[1]]
      [] n = "Setpoint" -> [s EXCEPT !.sp = a[1]]
      [] n = "Load"     -> [s EXCEPT !.gl = a[1]]
      [] n = "Battery"  -> [s EXCEPT !.eb = a[1]]
      [] n = "Enable"   -> IF a[1] = 0 THEN [s EXCEPT !.ie = a[2] = 1] ELSE [s EXCEPT !.oe = a[2] = 1]
      [] n = "Block"    -> IF a[1] = 0 THEN [s EXCEPT !.bi = a[2]] ELSE [s EXCEPT !.bo = a[2]]
      [] n = "Malf"     -> [s EXCEPT !.malf[TripAt[a[1] + 1]] = a[2]]
      [] n = "Reset"    -> IF a[1] = 0 THEN [s EXCEPT !.rstI = TRUE] ELSE [s EXCEPT !.rstO = TRUE]
      [] n = "Restart"  -> [s EXCEPT !.rstI = FALSE, !.rstO = FALSE]
      [] n = "Step"     -> Step(s)

Obs(s) == [tr |-> s.tr, lim |-> s.lim, vin |-> s.vin, on |-> s.on, inOn |-> s.inOn, amb |-> s.amb]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Within(x, y, tol) == Abs(x - y) <= tol
\* Observed voltages and currents in 0.001 V and 0.001 A, powers in 0.0001 W
Match(s, o) ==
    ~s.stepped \/
    LET Vsrc == CASE s.lim = OV -> s.lv["ov"] * 1000 [] s.lim = UV -> s.lv["uv"] * 1000
                  [] s.reg = VOLT -> s.sp * 1000 [] OTHER -> IF s.inOn THEN (o.vin * s.sp) \div 1000 ELSE 0
        reverse == o.v > Vsrc + 20
        vc == (o.v + 5) \div 10  ic == (o.i + 5) \div 10
        pout == vc * ic
        loss == (ic * ic) \div s.g
        pin == ((pout + loss) \div s.eff) * 100
        scaled == IF s.bi >= 1000 THEN 0 ELSE (o.pin \div ((1000 - s.bi) \div 100)) * 10
        draw == Max(o.vin, IF s.lv["iuv"] > 0 THEN Limited(s) * 10 ELSE 0)
        ptol == 6000 + o.pin \div 300 + vc + 2 * ic
        Says == /\ Why("failed to solve", ~o.threw \/ s.amb)
                \* nothing is fed back from the output
                /\ Why("reverse current", o.i >= -1 /\ o.iin >= -1)
                \* the nodes balance
                /\ Why("output node", o.threw \/ Within(o.i, (o.v * (s.gl + Gb(s)) - s.eb * 1000 * Gb(s)) \div 10, 6 + o.i \div 5000))
                /\ Why("input node", o.threw \/ Within(o.iin, (s.e * 1000 - o.vin) * GS, 12 + o.iin \div 5000))
    IN Says /\ (s.amb \/
        /\ Why(<<"trips", ToSet(o.tr)>>, ToSet(o.tr) = s.tr)
        /\ Why("limit", (s.on /\ s.limiting) => o.lim = s.lim)
        /\ Why("off: no current", s.on \/ o.i = 0)
        /\ Why(<<"voltage", Vsrc>>, (s.on /\ AsVoltage(s, s)) =>
               IF reverse THEN o.i = 0 ELSE Within(o.i, ((Vsrc - o.v) * G10(s)) \div 10, 12 * s.g + o.i \div 500))
        /\ Why("current limit", (s.on /\ s.lim = OC) => Within(o.i, IF Regulates(s) THEN s.lv["oc"] * 1000 ELSE s.lv["oc"] * (1000 - s.bo), 2 + o.i \div 5000))
        /\ Why("current", (s.on /\ s.reg = CURR /\ s.lim = NONE) => Within(o.i, s.sp * (1000 - s.bo), 2 + o.i \div 5000))
        /\ Why("power", (s.on /\ s.reg = POWR /\ s.lim = NONE) => Within(pout, (((s.sp * (1000 - s.bo)) \div 100) * (1000 - s.bo)), 200 + vc + ic + pout \div 500))
        \* the input side takes the power the output side delivers and loses
        /\ Why(<<"power", pin>>, s.inOn => Within(o.pin, pin, 200 + (2 * (vc + ic + ic \div s.g) * 100) \div s.eff + pin \div 2000))
        /\ Why("input off: no current", s.inOn \/ o.iin = 0)
        \* (a step that changes the output's current and not its voltage is settled at once: the input follows in the next one)
        /\ Why(<<"input current", scaled>>, (s.inOn /\ (~Within(o.v, s.lastV, 2) \/ o.i = s.lastI)) => Within((draw \div 10) * ((o.iin + 5) \div 10), scaled, 400 + draw \div 10 + o.iin \div 5 + scaled \div 400))
        /\ Why("losses", (o.i > 0 /\ s.inOn) => Within(o.oloss, o.pin - pout, 200 + vc + ic + pin \div 2000) /\ Within(o.closs, loss, 10 + ((2 * ic) \div s.g) + loss \div 500))
        /\ Why("input loss", s.inOn => Within(o.iloss, scaled - o.pin, 20 + scaled \div 1000)))
Absorb(s, o) == IF ~s.stepped THEN s
                ELSE [s EXCEPT !.tr = IF s.amb THEN ToSet(o.tr) ELSE @, !.lim = IF s.amb \/ ~s.on THEN o.lim ELSE @, !.pow = o.vin > 0, !.idle = o.i = 0, !.lastV = o.v, !.lastI = o.i]

Configs == CfgSet
Step1 == <<"Step", <<>>>>
Inputs(s) == IF s.steps >= MaxSteps \/ s.amb THEN {}
    ELSE {<<Step1>>} \cup {<<<<"Setpoint", <<x>>>>, Step1>> : x \in SetpointSet[s.reg + 1] \ {s.sp}}
         \cup {<<<<"Supply", <<x>>>>, Step1>> : x \in SupplySet \ {s.e}}
         \cup {<<<<"Load", <<x>>>>, Step1>> : x \in LoadSet \ {s.gl}}
         \cup {<<<<"Battery", <<x>>>>, Step1>> : x \in BatterySet \ {s.eb}}
         \cup {<<<<"Enable", <<k, IF (k = 0 /\ s.ie) \/ (k = 1 /\ s.oe) THEN 0 ELSE 1>>>>, Step1>> : k \in 0..1}
         \cup {<<<<"Reset", <<k>>>>, Step1>> : k \in {q \in 0..1 : s.tr \cap (IF q = 0 THEN InTrips ELSE OutTrips) # {}}}
         \cup {<<<<"Malf", <<k, x>>>>, Step1>> : k \in {q \in 0..4 : s.lv[TripAt[q + 1]] > 0}, x \in 0..2}
         \cup {<<<<"Block", <<k, x>>>>, Step1>> : k \in 0..1, x \in {0, 500}}
Bound(s) == TRUE
View(s) == s
Inv(s) == /\ s.stepped => (s.on => s.oe /\ s.avail)
          /\ (s.stepped /\ ~s.amb) =>
               \* a protection that sees its limit exceeded has tripped, or another has switched off what it sees
               /\ (s.tr \cap InTrips # {} => ~InOn(s, s.tr))
               /\ (s.lim # NONE => s.limiting /\ s.oe)
               /\ (Regulates(s) => s.lim \in {NONE, OC})
StepOK(s, in, t) ==
    /\ (in[1] # "Step") => s.tr = t.tr
    \* trips stay until they are reset or inhibited
    /\ (in[1] = "Step" /\ ~t.amb) => \A x \in s.tr : x \in t.tr \/ s.malf[x] = 2 \/ s.rstO \/ (s.rstI /\ x \in InTrips)
    \* and only what is asked to protect trips
    /\ (in[1] = "Step" /\ ~t.amb) => \A x \in t.tr \ s.tr : s.lv[x] > 0 /\ s.pri[x] >= 1 /\ s.malf[x] # 2
    /\ (in[1] = "Step" /\ ~t.amb /\ t.tr \ s.tr # {}) => \A x \in t.tr \ s.tr : (IF x \in InTrips THEN s.ie ELSE s.oe)
=============================================================================
