------------------------------ MODULE ElectBus ------------------------------
(* Two electrical models joined over a lagged data link (ms-utils/interop Distributed2WayBusElect).
   Each side holds the Supply role (it maintains the voltage, and takes the other side's demanded
   power as a load) or the Demand role (it takes the other side's voltage, and reports the load).
   One action per public call of one side; the link is two queues of data messages. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lockstep,     \* explore both sides frame by frame (TRUE) or at any relative speed (FALSE)
          MaxFrames, Volts, Latency,
          ChangeUntil,  \* lockstep: the frame after which the voltage supplies no longer change
          Settle        \* lockstep: frames within which the roles must have settled after that

Side  == {1, 2}
Other(x) == 3 - x
None == 0  Sup == 1  Dem == 2          \* forced roles

NoMsg == [fc |-> 0, fl |-> 0, d |-> FALSE, p |-> 0, v |-> 0]

\* cfg = <<side 1 is primary, its initial voltage, side 2 is primary, its initial voltage, link latency>>
Side0(prim, volt) ==
    [ in |-> [fc |-> 0, fl |-> 0, d |-> prim, p |-> 0, v |-> volt],
      out |-> [fc |-> 0, fl |-> 0, d |-> ~prim, p |-> 0, v |-> volt],
      fsf |-> 0, loop |-> 0, forced |-> None,
      sup |-> << <<FALSE, 0>>, <<FALSE, 0>> >>, notes |-> <<>>, pop |-> -1 ]

S0(cfg) == [ side |-> << Side0(cfg[1] = 1, cfg[2]), Side0(cfg[3] = 1, cfg[4]) >>,
             lat |-> cfg[5],               \* frames a message is under way, 0 if not fixed
             link |-> << <<>>, <<>> >> ]     \* link[x]: messages under way to side x

Avail(sd) == LET V(k) == IF sd.sup[k][1] /\ sd.sup[k][2] > 0 THEN sd.sup[k][2] ELSE 0
             IN IF V(1) > V(2) THEN V(1) ELSE V(2)

-----------------------------------------------------------------------------
\* Actions of one side
ForceRole(sd, r) == [sd EXCEPT !.forced = r]

SetSupply(sd, k, avail, v) == [sd EXCEPT !.sup[k] = <<avail = 1, v>>]

ProcessInputs(sd) ==
    [sd EXCEPT !.out.fc = @ + 1, !.fsf = @ + 1, !.loop = sd.out.fc + 1 - sd.in.fl, !.out.fl = sd.in.fc]

\* The role after an update: forced, or by the mode switching rules.
FlipToSupply(sd) == /\ sd.forced = None /\ sd.in.fl > 0 /\ sd.out.d
                    /\ sd.in.d /\ sd.fsf > sd.loop
FlipToDemand(sd) == /\ sd.forced = None /\ sd.in.fl > 0 /\ ~sd.out.d
                    /\ Avail(sd) < sd.in.v
Update(sd, localV, localP) ==
    LET flip == FlipToSupply(sd) \/ FlipToDemand(sd)
        role == CASE sd.forced = Sup -> FALSE
                  [] sd.forced = Dem -> TRUE
                  [] OTHER -> IF flip THEN ~sd.out.d ELSE sd.out.d
    IN [sd EXCEPT !.out.d = role,
                  !.fsf = IF flip THEN 0 ELSE @,
                  !.notes = IF flip THEN Append(@, "INFO") ELSE @,
                  !.out.v = IF role THEN Avail(sd) ELSE localV,
                  !.out.p = IF role THEN localP ELSE 0]

Level(n) == CASE n = "INFO" -> 0 [] n = "WARN" -> 1 [] n = "ERR" -> 2 [] n = "NONE" -> 3
Pop(sd) == IF sd.notes = <<>> THEN [sd EXCEPT !.pop = 3]
           ELSE [sd EXCEPT !.pop = Level(sd.notes[Len(sd.notes)]), !.notes = SubSeq(@, 1, Len(@) - 1)]

\* The link
Send(s, x)    == [s EXCEPT !.link[Other(x)] = Append(@, s.side[x].out)]
Deliver(s, x) == IF s.link[x] = <<>> THEN s
                 ELSE [s EXCEPT !.side[x].in = Head(s.link[x]), !.link[x] = Tail(@)]
Lose(s, x)    == IF s.link[x] = <<>> THEN s ELSE [s EXCEPT !.link[x] = Tail(@)]

ReInit(s, x, prim, volt) ==   \* initialize() again: counters of the messages and the forced role stay
    LET o == s.side[x] n == Side0(prim = 1, volt)
    IN [s EXCEPT !.side[x] = [n EXCEPT !.in.fc = o.in.fc, !.in.fl = o.in.fl, !.out.fc = o.out.fc,
                              !.out.fl = o.out.fl, !.forced = o.forced, !.sup = o.sup,
                              !.notes = o.notes, !.pop = o.pop]]

On(s, x, sd) == [s EXCEPT !.side[x] = sd]
Apply(s, n, a) ==
    LET x == a[1] sd == s.side[x] IN
    CASE n = "ForceRole"     -> On(s, x, ForceRole(sd, a[2]))
      [] n = "SetSupply"     -> On(s, x, SetSupply(sd, a[2], a[3], a[4]))
      [] n = "ProcessInputs" -> On(s, x, ProcessInputs(sd))
      [] n = "Update"        -> On(s, x, Update(sd, a[2], a[3]))
      [] n = "Pop"           -> On(s, x, Pop(sd))
      [] n = "Send"          -> Send(s, x)
      [] n = "Deliver"       -> Deliver(s, x)
      [] n = "Lose"          -> Lose(s, x)
      [] n = "ReInit"        -> ReInit(s, x, a[2], a[3])

ObsSide(sd) == [ demand |-> sd.out.d, ov |-> sd.out.v, op |-> sd.out.p, ofc |-> sd.out.fc, ofl |-> sd.out.fl,
                 load |-> IF sd.out.d THEN 0 ELSE sd.in.p, supply |-> sd.in.v, valid |-> sd.in.fc > 1,
                 notes |-> Len(sd.notes), pop |-> sd.pop ]
Obs(s) == << ObsSide(s.side[1]), ObsSide(s.side[2]) >>
Match(s, o) == Obs(s) = o

-----------------------------------------------------------------------------
\* Exploration
Frame(s, x, deliver) ==
    (IF deliver THEN << <<"Deliver", <<x>> >> >> ELSE <<>>) \o
    << <<"ProcessInputs", <<x>>>>, <<"Update", <<x, Avail(s.side[x]), 1>>>>, <<"Send", <<x>>>> >>
SupplyTo(x, v) == <<"SetSupply", <<x, 1, 1, v>>>>

Configs == IF Lockstep THEN { <<p, 0, 1 - p, 0, l>> : p \in {0, 1}, l \in 1..Latency }
           ELSE { <<1, 0, 0, 0, 0>>, <<1, 0, 1, 0, 0>>, <<0, 2, 0, 0, 0>> }

AsyncInputs(s) ==
    UNION { LET sd == s.side[x] IN
            { << SupplyTo(x, v) >> : v \in {w \in Volts : sd.sup[1] # <<TRUE, w>>} }
       \cup { << <<"ForceRole", <<x, r>>>> >> : r \in {None, Sup, Dem} \ {sd.forced} }
       \cup { Frame(s, x, FALSE) }
       \cup (IF Len(s.link[x]) > 0 THEN { Frame(s, x, TRUE) } ELSE {}) : x \in Side }

LockInputs(s) ==
    LET x == IF s.side[1].out.fc = s.side[2].out.fc THEN 1 ELSE 2
        sd == s.side[x]
        f == Frame(s, x, Len(s.link[x]) >= s.lat)
    IN { f } \cup (IF sd.out.fc < ChangeUntil
                   THEN { << SupplyTo(x, v), f[1], f[2], <<"Update", <<x, v, 1>>>>, f[Len(f)] >> :
                            v \in {w \in Volts : sd.sup[1] # <<TRUE, w>> /\ Len(f) = 4} }
                   ELSE {})
Inputs(s) == IF Lockstep THEN LockInputs(s) ELSE AsyncInputs(s)
Bound(s) == \A x \in Side : s.side[x].out.fc <= MaxFrames /\ (Lockstep \/ Len(s.link[x]) <= Latency)
View(s) == [s EXCEPT !.side[1].notes = <<>>, !.side[2].notes = <<>>]

\* Once the supplies stop changing, one side and only one is in Supply, and it stays so.
Settled(s) == Lockstep /\ s.lat > 0 /\ s.side[2].out.fc >= ChangeUntil + Settle
              /\ s.side[1].out.fc = s.side[2].out.fc
OneSupply(s) == Settled(s) => s.side[1].out.d # s.side[2].out.d
\* A side in Supply demands nothing; a side in Demand is asked for nothing.
RoleOutputs(s) == \A x \in Side : LET o == ObsSide(s.side[x]) IN
                     (~o.demand => o.op = 0) /\ (o.demand => o.load = 0)
Counters(s) == \A x \in Side : s.side[x].out.fl <= s.side[Other(x)].out.fc
Inv(s) == RoleOutputs(s) /\ OneSupply(s)

StepOK(s, in, t) ==
    \A x \in Side : LET o == s.side[x] n == t.side[x] IN
       \* a role changes only in an update of that side (or a new initialization),
       /\ (o.out.d # n.out.d => in[1] \in {"Update", "ReInit"} /\ in[2][1] = x)
       \* a forced role is the role after every update,
       /\ (in[1] = "Update" /\ in[2][1] = x => (o.forced = Sup => ~n.out.d) /\ (o.forced = Dem => n.out.d))
       \* and otherwise it changes only on valid grounds.
       /\ (in[1] = "Update" /\ o.out.d # n.out.d /\ o.forced = None =>
             /\ o.in.fl > 0
             /\ (n.out.d => Avail(o) < o.in.v)
             /\ (~n.out.d => o.in.d /\ o.fsf > o.loop))
       /\ (Lockstep /\ s.lat > 0 /\ o.out.fc > ChangeUntil + Settle => n.out.d = o.out.d)
=============================================================================
