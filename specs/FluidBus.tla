------------------------------ MODULE FluidBus ------------------------------
(* Two fluid models joined over a lagged data link (ms-utils/interop Distributed2WayBusFluid).
   The Supply side owns the interface volume and sends its fluid state (pressure, energy, mixture);
   the Demand side takes that state as a boundary and sends back the flow it draws.  One action per
   public call of one side; the link is two queues of data messages. *)
EXTENDS Integers, Sequences

CONSTANTS Lockstep,     \* explore both sides frame by frame (TRUE) or at any relative speed (FALSE)
          MaxFrames, Caps, Latency,
          ChangeUntil,  \* lockstep: the frame after which the capacitances no longer change
          Settle        \* lockstep: frames within which the roles must have settled after that

Side  == {1, 2}
Other(x) == 3 - x
None == 0  Sup == 1  Dem == 2
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Zeros(n) == [i \in 1..n |-> 0]

Data0(nb, nt) == [fc |-> 0, fl |-> 0, d |-> FALSE, cap |-> 0, src |-> 0, en |-> 0, mf |-> Zeros(nb), tc |-> Zeros(nt)]

\* cfg = <<side 1 is master, its bulk compounds, its trace compounds, side 2 ..., link latency, forced 1, forced 2>>
Side0(master, nb, nt, force) ==
    [ in |-> Data0(nb, nt), out |-> Data0(nb, nt), master |-> master, lastD |-> FALSE,
      fsf |-> 0, loop |-> 0, forced |-> force, gain |-> 0, limit |-> 0,
      notes |-> <<>>, pop |-> -1, got |-> <<>> ]
S0(cfg) == [ side |-> << Side0(cfg[1] = 1, cfg[2], cfg[3], cfg[8]), Side0(cfg[4] = 1, cfg[5], cfg[6], cfg[9]) >>,
             lat |-> cfg[7], link |-> << <<>>, <<>> >> ]

Valid(m) == /\ m.fc >= 1 /\ m.en > 0 /\ m.cap >= 0 /\ (m.src >= 0 \/ m.d)
            /\ \A i \in DOMAIN m.mf : m.mf[i] >= 0
            /\ \A i \in DOMAIN m.tc : m.tc[i] >= 0

Note(sd, n) == [sd EXCEPT !.notes = Append(@, n)]

-----------------------------------------------------------------------------
ToDemand(sd) == IF sd.forced = Sup THEN sd ELSE Note([sd EXCEPT !.out.d = TRUE,  !.fsf = 0], 0)
ToSupply(sd) == IF sd.forced = Dem THEN sd ELSE Note([sd EXCEPT !.out.d = FALSE, !.fsf = 0], 0)

Counts(sd) == [sd EXCEPT !.out.fc = @ + 1, !.fsf = @ + 1, !.loop = sd.out.fc + 1 - sd.in.fl, !.out.fl = sd.in.fc]

FlipOnInput(sd) ==
    IF sd.forced = Dem /\ ~sd.out.d THEN ToDemand(sd)
    ELSE IF sd.forced = Sup /\ sd.out.d THEN ToSupply(sd)
    ELSE IF ~Valid(sd.in) THEN sd
    ELSE LET t == IF sd.out.d /\ sd.in.d /\ ~sd.lastD THEN ToSupply(sd)
                  ELSE IF ~sd.out.d /\ ~sd.in.d
                          /\ (sd.out.cap < sd.in.cap \/ (sd.master /\ sd.out.cap = sd.in.cap)) THEN ToDemand(sd)
                  ELSE sd
         IN [t EXCEPT !.lastD = sd.in.d]

ProcessInputs(sd) == FlipOnInput(Counts(sd))

\* The Supply side hands the volume over once the other side's capacitance exceeds 1.25 of its own, and
\* then reports no flow until it has computed one.
ProcessOutputs(sd, cap) ==
    LET t == [sd EXCEPT !.out.cap = cap] IN
    IF ~sd.out.d /\ sd.fsf > sd.loop /\ 5 * cap < 4 * sd.in.cap
    THEN LET u == ToDemand(t) IN IF u.out.d THEN [u EXCEPT !.out.src = 0] ELSE u
    ELSE t

Fill(old, f) == [i \in DOMAIN old |-> IF i <= Len(f) THEN f[i] ELSE 0]     \* a shorter array is filled with zeroes
SetState(sd, whenDemand, src, en, f, t) ==
    IF sd.out.d # whenDemand THEN Note(sd, 1)
    ELSE [sd EXCEPT !.out.src = src, !.out.en = en, !.out.mf = Fill(@, f), !.out.tc = Fill(@, t)]

GetState(sd, whenDemand, nf, nt) ==
    IF sd.out.d = whenDemand /\ Valid(sd.in) /\ sd.in.d # whenDemand
    THEN [sd EXCEPT !.got = <<1, sd.in.src, sd.in.en, Fill(Zeros(nf), sd.in.mf), Fill(Zeros(nt), sd.in.tc)>>]
    ELSE [sd EXCEPT !.got = <<0, -7, -7, [i \in 1..nf |-> -7], [i \in 1..nt |-> -7]>>]

\* The limit on the Demand side's flow: gain in 1e-6, limit in 1e-4 (see Match for the rounding).
RECURSIVE Pow34(_)
Pow34(n) == IF n = 0 THEN 1500000 ELSE (3 * Pow34(n - 1)) \div 4
LagGain(loop) == Min(1000000, Pow34(Min(60, Max(1, loop))))
Gain(sd) == LET lag == LagGain(sd.loop) cd == sd.out.cap cs == sd.in.cap
                k == IF cs <= cd THEN 0 ELSE IF 4 * (cs - cd) >= cd THEN 1000000 - lag
                     ELSE ((1000000 - lag) * (4 * (cs - cd))) \div cd
            IN lag + k
DemandLimit(sd, dt, p) ==
    IF sd.out.d /\ ~sd.in.d /\ dt > 0 /\ sd.out.cap > 0 /\ sd.in.cap > 0
    THEN [sd EXCEPT !.gain = Gain(sd),
                    !.limit = (((Gain(sd) * Abs(p - sd.in.src)) \div 100) * (sd.out.cap * sd.in.cap))
                              \div (dt * (sd.out.cap + sd.in.cap))]
    ELSE [sd EXCEPT !.gain = 0, !.limit = 0]

Pop(sd) == IF sd.notes = <<>> THEN [sd EXCEPT !.pop = 3]
           ELSE [sd EXCEPT !.pop = sd.notes[Len(sd.notes)], !.notes = SubSeq(@, 1, Len(@) - 1)]

\* The link
Over(old, new) == [i \in DOMAIN old |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
Receive(old, m) == [m EXCEPT !.mf = Over(old.mf, m.mf), !.tc = Over(old.tc, m.tc)]
Send(s, x)    == [s EXCEPT !.link[Other(x)] = Append(@, s.side[x].out)]
Deliver(s, x) == IF s.link[x] = <<>> THEN s
                 ELSE [s EXCEPT !.side[x].in = Receive(@, Head(s.link[x])), !.link[x] = Tail(@)]
Lose(s, x)    == IF s.link[x] = <<>> THEN s ELSE [s EXCEPT !.link[x] = Tail(@)]

On(s, x, sd) == [s EXCEPT !.side[x] = sd]
Take(a, i) == SubSeq(a, i + 1, i + a[i])          \* a[i] values follow a[i]
Apply(s, n, a) ==
    LET x == a[1] sd == s.side[x] IN
    CASE n = "ForceRole"      -> On(s, x, [sd EXCEPT !.forced = a[2]])
      [] n = "ProcessInputs"  -> On(s, x, ProcessInputs(sd))
      [] n = "ProcessOutputs" -> On(s, x, ProcessOutputs(sd, a[2]))
      [] n = "SetFluid"       -> On(s, x, SetState(sd, FALSE, a[2], a[3], Take(a, 4), Take(a, 5 + a[4])))
      [] n = "SetFlow"        -> On(s, x, SetState(sd, TRUE, a[2], a[3], Take(a, 4), Take(a, 5 + a[4])))
      [] n = "GetFluid"       -> On(s, x, GetState(sd, TRUE, a[2], a[3]))
      [] n = "GetFlow"        -> On(s, x, GetState(sd, FALSE, a[2], a[3]))
      [] n = "DemandLimit"    -> On(s, x, DemandLimit(sd, a[2], a[3]))
      [] n = "Pop"            -> On(s, x, Pop(sd))
      [] n = "Send"           -> Send(s, x)
      [] n = "Deliver"        -> Deliver(s, x)
      [] n = "Lose"           -> Lose(s, x)

ObsSide(sd) == [ demand |-> sd.out.d, ofc |-> sd.out.fc, ofl |-> sd.out.fl, cap |-> sd.out.cap, src |-> sd.out.src,
                 en |-> sd.out.en, mf |-> sd.out.mf, tc |-> sd.out.tc, valid |-> Valid(sd.in),
                 imf |-> sd.in.mf, itc |-> sd.in.tc, gain |-> sd.gain, limit |-> sd.limit,
                 notes |-> Len(sd.notes), pop |-> sd.pop, got |-> sd.got ]
Obs(s) == << ObsSide(s.side[1]), ObsSide(s.side[2]) >>
Close(a, b, tol) == Abs(a - b) <= tol
Match(s, o) == \A x \in Side : LET e == ObsSide(s.side[x]) IN
                  /\ [e EXCEPT !.gain = 0, !.limit = 0] = [o[x] EXCEPT !.gain = 0, !.limit = 0]
                  /\ Close(e.gain, o[x].gain, 20)
                  /\ Close(e.limit, o[x].limit, 60 + e.limit \div 5000)

-----------------------------------------------------------------------------
\* Exploration
Frame(x, deliver, cap) ==
    (IF deliver THEN << <<"Deliver", <<x>> >> >> ELSE <<>>) \o
    << <<"ProcessInputs", <<x>>>>, <<"SetFluid", <<x, 7, 9, 1, 1, 0>>>>, <<"SetFlow", <<x, -3, 8, 1, 1, 0>>>>,
       <<"GetFluid", <<x, 1, 0>>>>, <<"GetFlow", <<x, 1, 0>>>>,
       <<"ProcessOutputs", <<x, cap>>>>, <<"Send", <<x>>>> >>

Configs == IF Lockstep THEN { <<1, 1, 0, 0, 1, 0, l, f, (3 - f) % 3>> : l \in 1..Latency, f \in {None, Dem, Sup} }
           ELSE { <<1, 1, 0, 0, 1, 0, 0, f, 0>> : f \in {None, Sup, Dem} }

AsyncInputs(s) ==
    UNION { { << <<"ForceRole", <<x, r>>>> >> : r \in {None, Sup, Dem} \ {s.side[x].forced} }
       \cup { Frame(x, del, c) : del \in (IF Len(s.link[x]) > 0 THEN {TRUE, FALSE} ELSE {FALSE}), c \in Caps } : x \in Side }
LockInputs(s) ==
    LET x == IF s.side[1].out.fc = s.side[2].out.fc THEN 1 ELSE 2
        sd == s.side[x]
        del == Len(s.link[x]) >= s.lat
    IN IF sd.out.fc < ChangeUntil THEN { Frame(x, del, c) : c \in Caps }
       ELSE { Frame(x, del, sd.out.cap) }
Inputs(s) == IF Lockstep THEN LockInputs(s) ELSE AsyncInputs(s)
Bound(s) == \A x \in Side : s.side[x].out.fc <= MaxFrames /\ (Lockstep \/ Len(s.link[x]) <= Latency)
View(s) == [s EXCEPT !.side[1].notes = <<>>, !.side[2].notes = <<>>, !.side[1].got = <<>>, !.side[2].got = <<>>]

\* Once the capacitances stop changing, one side and only one is in Supply.
Settled(s) == Lockstep /\ s.lat > 0 /\ s.side[2].out.fc >= ChangeUntil + Settle /\ s.side[1].out.fc = s.side[2].out.fc
OneSupply(s) == Settled(s) => s.side[1].out.d # s.side[2].out.d
\* A forced role is never left.
Inv(s) == OneSupply(s)

StepOK(s, in, t) ==
    \A x \in Side : LET o == s.side[x] n == t.side[x] mine == in[2][1] = x IN
       \* a role changes only while this side processes its inputs or outputs,
       /\ (o.out.d # n.out.d => mine /\ in[1] \in {"ProcessInputs", "ProcessOutputs"})
       \* the forced role is taken at the next inputs and not left until released,
       /\ (in[1] = "ProcessInputs" /\ mine => (o.forced = Sup => ~n.out.d) /\ (o.forced = Dem => n.out.d))
       /\ (o.forced = Sup /\ ~o.out.d => ~n.out.d)
       /\ (o.forced = Dem /\ o.out.d => n.out.d)
       \* a side in Supply goes on sending the pressure it was given,
       /\ (~n.out.d /\ ~o.out.d /\ in[1] # "SetFluid" => n.out.src = o.out.src)
       \* nothing but valid data from the other side, or force, changes a role,
       /\ (o.out.d # n.out.d /\ in[1] = "ProcessInputs" => o.forced # None \/ Valid(o.in))
       \* and a side that has settled keeps its role.
       /\ (Lockstep /\ s.lat > 0 /\ o.out.fc > ChangeUntil + Settle => n.out.d = o.out.d)
=============================================================================
