------------------------------ MODULE MinorLog ------------------------------
(* The solver's minor step log (core/GunnsMinorStepLog): a user commands recording, the solver records
   the minor steps of its major steps, another thread writes the log to a file, the freeze job resizes
   the log. The log is the sequence of the last `size` minor steps since recording started. *)
EXTENDS Integers, Sequences

CONSTANTS CfgSet, Sizes, MaxMajors, MaxMinors, Results

PAUSE == 0  AUTO == 1  SNAPREC == 2  SNAP == 3           \* commands
PAUSED == 0  R_AUTO == 1  R_SNAP == 2  WRITING == 3      \* states
SUCCESS == 0
OK == 0  BAD == 1                                        \* can the file be opened

\* cfg = <<command, size>>
Refused(cfg) == cfg[1] = SNAP \/ (cfg[2] = 0 /\ cfg[1] \in {AUTO, SNAPREC})
S0(cfg) == [ init |-> ~Refused(cfg), cmd |-> cfg[1], want |-> cfg[2], size |-> cfg[2], state |-> PAUSED,
             log |-> <<>>,          \* the recorded minor steps, oldest first
             rec |-> cfg[2] > 0, busy |-> FALSE, major |-> 0, minor |-> 0,
             due |-> FALSE, dueMajor |-> -1,      \* a file to be written, named after this major step
             file |-> <<>>, fileMajor |-> -1, written |-> FALSE, path |-> OK, duePath |-> OK, last |-> SUCCESS ]

Last(q) == q[Len(q)]
\* The file is named after the last recorded major step, if any (-1: whatever was recorded before).
Dump(s) == [s EXCEPT !.state = WRITING, !.rec = FALSE, !.due = TRUE, !.duePath = s.path,
                     !.dueMajor = IF s.log = <<>> THEN -1 ELSE Last(s.log)[1]]
Start(s) == [s EXCEPT !.rec = TRUE, !.log = <<>>]

BeginMajor(s0) ==
    LET s == [s0 EXCEPT !.busy = TRUE, !.major = @ + 1, !.minor = 0] IN
    IF s.size = 0 THEN [s EXCEPT !.cmd = PAUSE, !.state = PAUSED, !.rec = FALSE]
    ELSE IF s.state = WRITING THEN s
    ELSE CASE s.cmd = PAUSE -> [s EXCEPT !.rec = FALSE, !.state = PAUSED]
           [] s.cmd \in {AUTO, SNAPREC} ->
                 [(IF s.state = PAUSED THEN Start(s) ELSE s) EXCEPT !.state = IF s.cmd = AUTO THEN R_AUTO ELSE R_SNAP]
           [] s.cmd = SNAP -> Dump([s EXCEPT !.cmd = CASE s.state = PAUSED -> PAUSE
                                                       [] s.state = R_AUTO -> AUTO
                                                       [] OTHER -> SNAPREC])
           [] OTHER -> s

\* a = <<decompositions, result, link 1's result, link 2's result, a value everything recorded depends on>>
Minor(s, a) ==
    IF ~s.busy THEN s
    ELSE LET k == s.minor + 1
             f == <<s.major, k>> \o a
         IN [s EXCEPT !.minor = k, !.last = a[2],
                      !.log = IF ~s.rec THEN @ ELSE IF Len(@) < s.size THEN Append(@, f) ELSE Append(Tail(@), f)]
EndMajor(s0) ==
    LET s == [s0 EXCEPT !.busy = FALSE] IN
    IF s.state = R_AUTO /\ s.log # <<>> /\ Last(s.log)[4] # SUCCESS THEN Dump(s) ELSE s

Async(s) == IF ~s.due THEN s
            ELSE [s EXCEPT !.due = FALSE, !.state = PAUSED, !.written = (s.duePath = OK),
                           !.file = IF s.duePath = OK THEN s.log ELSE <<>>, !.fileMajor = s.dueMajor]
Freeze(s) == IF s.state = WRITING \/ s.want = s.size \/ s.want = 0 THEN s
             ELSE Start([s EXCEPT !.size = s.want])

Apply(s0, n, a) ==
    LET s == [s0 EXCEPT !.written = FALSE, !.file = <<>>, !.fileMajor = -1] IN
    IF ~s.init THEN s
    ELSE CASE n = "Cmd"   -> [s EXCEPT !.cmd = a[1]]
           [] n = "Size"  -> [s EXCEPT !.want = a[1]]
           [] n = "Path"  -> [s EXCEPT !.path = a[1]]
           [] n = "Begin" -> IF s.busy THEN s ELSE BeginMajor(s)
           [] n = "Minor" -> Minor(s, a)
           [] n = "End"   -> IF s.busy THEN EndMajor(s) ELSE s
           [] n = "Async" -> Async(s)
           [] n = "Freeze" -> IF s.busy THEN s ELSE Freeze(s)

Match(s, o) == /\ o.refused = ~s.init
               /\ s.init => /\ o.cmd = s.cmd
                            /\ o.state = s.state
                            /\ o.due = s.due
                            /\ (s.due /\ s.dueMajor >= 0 => o.dueMajor = s.dueMajor)
                            /\ o.files = (IF s.written THEN 1 ELSE 0)
                            /\ (s.written => /\ o.rows = s.file
                                             /\ o.header = TRUE
                                             /\ (s.fileMajor >= 0 => o.fileMajor = s.fileMajor))
Obs(s) == [refused |-> ~s.init, cmd |-> s.cmd, state |-> s.state, due |-> s.due, dueMajor |-> s.dueMajor,
           files |-> IF s.written THEN 1 ELSE 0, rows |-> s.file, header |-> TRUE, fileMajor |-> s.fileMajor]

-----------------------------------------------------------------------------
Configs == CfgSet
Inputs(s) ==
    IF ~s.init THEN {}
    ELSE IF s.busy
    THEN { << <<"Async", <<>> >> >> } \cup (IF s.minor > 0 THEN { << <<"End", <<>> >> >> } ELSE {})
         \cup { << <<"Minor", <<1, x, 1, 1, s.major * 10 + s.minor>> >> >> : x \in Results }
    ELSE { << <<"Cmd", <<c>> >> >> : c \in {PAUSE, AUTO, SNAPREC, SNAP} \ {s.cmd} }
         \cup { << <<"Size", <<k>> >> >> : k \in Sizes \ {s.want} }
         \cup { << <<"Begin", <<>> >> >>, << <<"Async", <<>> >> >>, << <<"Freeze", <<>> >> >> }
Bound(s) == s.major <= MaxMajors /\ s.minor <= MaxMinors
View(s) == [s EXCEPT !.written = FALSE, !.file = <<>>, !.fileMajor = -1]

\* The log never holds more than its size, in order and without gaps inside a major step; only a
\* recording state records; a file is due exactly while the log waits for it.
Inv(s) == /\ Len(s.log) <= s.size
          /\ (s.init => (s.due <=> s.state = WRITING))
          /\ (s.busy /\ s.rec /\ s.cmd \in PAUSE..SNAP => s.state \in {R_AUTO, R_SNAP})
          /\ \A i \in 1..(Len(s.log) - 1) :
                LET f == s.log[i] g == s.log[i+1]
                IN \/ (g[1] = f[1] /\ g[2] = f[2] + 1)
                   \/ (g[1] > f[1] /\ g[2] = 1)
StepOK(s, in, t) ==
    \* what is written is the log that was due, and is not lost;
    /\ (s.due => t.due \/ (in[1] = "Async" /\ (s.duePath = OK => t.written)))
    /\ (s.due /\ t.due => t.log = s.log)
    /\ (t.written => t.file = s.log /\ s.due)
    \* an unsuccessful major step is dumped in RECORD_AUTO, and no other is.
    /\ ((in[1] = "End" /\ s.busy /\ s.minor > 0)
          => (t.due /\ ~s.due <=> s.state = R_AUTO /\ s.last # SUCCESS))
=============================================================================
