------------------------------- MODULE Solver -------------------------------
(* The network solver's major and minor steps (core/Gunns): one major step per Begin, one action
   Minor for every minor step in it, carrying what the links contribute and answer in that minor step.
   The network has N nodes with one 1-port link each: link i puts the admittance g[i] and the source
   w[i] on node i, so the solution is w[i] / g[i]; the protocol does not depend on the topology, which
   is specified in Network.tla. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Gs, Ws, Ovs, Votes, Majors, CfgSet, Modes, Flags

REJECT == 0  CONFIRM == 1  DELAY == 2
NORMAL == 0  DUMMY == 1    SLAVE == 2
Init0 == 8                              \* initial node potentials

\* cfg = <<n, tolerance, minor step limit, decomposition limit, non-linear_1, ..., non-linear_n>>
\* (a tolerance of 0 stands for 0.5, which no two different potentials of this specification meet)
S0(cfg) ==
    LET n == cfg[1] all(x) == [i \in 1..n |-> x] IN
    [ n |-> n, tol |-> cfg[2], mlim |-> cfg[3], dlim |-> cfg[4], nl |-> [i \in 1..n |-> cfg[4+i] = 1],
      mode |-> NORMAL, worst |-> FALSE, sor |-> 0, dbg |-> FALSE, isl |-> 0, slave |-> all(0),
      k |-> 0,                                 \* the minor step under way, 0 between major steps
      conv |-> 0, res |-> CONFIRM, ok |-> FALSE,
      g |-> all(0), w |-> all(0), ov |-> all(FALSE), rok |-> all(TRUE), vote |-> all(CONFIRM),
      lp |-> all(Init0), P |-> all(Init0), Pm |-> all(Init0), PM |-> all(Init0), np |-> all(Init0),
      stale |-> TRUE,                          \* no decomposition of the current matrix is at hand
      lc |-> all(CONFIRM), nc |-> all(0),
      major |-> 0, minor |-> 0, maxMinor |-> 0, dec |-> 0, lastDec |-> 0, maxDec |-> 0,
      fail |-> 0, rfail |-> 0, avgMinor |-> 0, avgMajor |-> 1,
      calls |-> <<>>, threw |-> FALSE ]

Links(s)   == 1..s.n
Linear(s)  == \A i \in Links(s) : ~s.nl[i]
Asc(s, F(_))  == [i \in Links(s) |-> F(i)]
Desc(s, F(_)) == [i \in Links(s) |-> F(s.n + 1 - i)]
NLSeq(s) == SelectSeq([i \in Links(s) |-> i], LAMBDA i : s.nl[i])
OverNL(s, F(_)) == LET q == NLSeq(s) IN [j \in 1..Len(q) |-> F(q[j])]
Call(s, q) == [s EXCEPT !.calls = @ \o q]
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
Output(s) == IF s.mode = DUMMY THEN s ELSE [s EXCEPT !.lp = s.P, !.np = s.P]
Override(s) == CASE s.mode = NORMAL -> [s EXCEPT !.P = [i \in Links(s) |-> IF s.ov[i] THEN s.lp[i] ELSE @[i]]]
                 [] s.mode = SLAVE  -> [s EXCEPT !.P = s.slave, !.Pm = s.slave]
                 [] OTHER -> s
Solution(s) == [i \in Links(s) |-> IF s.g[i] = 0 THEN 0 ELSE s.w[i] \div s.g[i]]

\* What the links contribute in a minor step.
Contribute(s, a, T) ==
    LET X(i, j) == a[6*(i-1) + j]
        In(i) == i \in T
    IN [s EXCEPT !.stale = @ \/ (\E i \in T : X(i, 1) # s.g[i]),
                 !.g  = [i \in Links(s) |-> IF In(i) THEN X(i, 1) ELSE @[i]],
                 !.w  = [i \in Links(s) |-> IF In(i) THEN X(i, 2) ELSE @[i]],
                 !.ov = [i \in Links(s) |-> IF In(i) THEN X(i, 3) = 1 ELSE @[i]],
                 !.lp = [i \in Links(s) |-> IF In(i) /\ X(i, 3) = 1 THEN X(i, 4) ELSE @[i]]]
Answers(s, a) == [s EXCEPT !.vote = [i \in Links(s) |-> a[6*(i-1) + 5]],
                           !.rok  = [i \in Links(s) |-> a[6*(i-1) + 6] = 1]]

\* Solve the system; the result is <<"ok" | "limit" | "math", state>>.
NeedDec(s) == s.stale \/ s.dbg
BadMatrix(s) == \E i \in 2..s.n : s.g[i] < 0
Solve(s) ==
    IF s.mode # NORMAL THEN <<"ok", [s EXCEPT !.stale = @ \/ s.dbg \/ s.sor > 0]>>   \* built, not decomposed
    ELSE IF s.sor = 1 THEN <<"ok", [s EXCEPT !.P = Solution(s), !.stale = TRUE]>>
    ELSE LET need == NeedDec(s) \/ s.sor = 2
             t == IF s.sor = 2 THEN [s EXCEPT !.P = s.Pm, !.stale = TRUE] ELSE s
         IN IF ~need THEN <<"ok", [t EXCEPT !.P = Solution(s)]>>
            ELSE IF s.lastDec >= s.dlim THEN <<"limit", [t EXCEPT !.stale = TRUE]>>
            ELSE LET u == [t EXCEPT !.lastDec = @ + 1, !.dec = @ + 1]
                 IN IF BadMatrix(s) THEN <<"math", [u EXCEPT !.stale = TRUE]>>
                    ELSE <<"ok", [u EXCEPT !.P = Solution(s), !.stale = FALSE]>>

-----------------------------------------------------------------------------
\* The end of a major step.
Averages(s) == [s EXCEPT !.avgMinor = s.minor, !.avgMajor = s.major, !.maxDec = Max(@, s.lastDec)]
Done(s, ok) ==
    LET a == Averages(s)
        b == IF ok THEN Call(a, Desc(a, LAMBDA i : <<6, i, 0, 0, 4>>) \o Desc(a, LAMBDA i : <<7, i, 0, 0, 0>>))
             ELSE Output(Override([a EXCEPT !.fail = @ + 1, !.P = a.PM]))
    IN [b EXCEPT !.PM = b.P, !.k = 0]
Aborted(s) == [s EXCEPT !.k = 0, !.threw = TRUE]

\* The start of minor step k of a major step.
Enter(s, k) == [s EXCEPT !.k = k, !.minor = @ + 1, !.maxMinor = Max(@, k)]
Limit(s) == IF Linear(s) \/ s.mode # NORMAL THEN 1 ELSE s.mlim
Next(s) == IF s.k >= Limit(s) THEN Done(s, s.ok) ELSE Enter(s, s.k + 1)

\* a = <<solver mode, paused, worst-case timing, SOR (0 off, 1 on, 2 on and failing), rebuild every
\*       time, island mode, slave potentials...>>
Begin(s, a) ==
    LET m == [s EXCEPT !.mode = a[1], !.worst = a[3] = 1, !.sor = a[4], !.dbg = a[5] = 1,
                       !.isl = a[6], !.stale = @ \/ a[6] # s.isl,     \* islands are found when building
                       !.slave = [i \in Links(s) |-> a[6+i]], !.calls = <<>>, !.threw = FALSE]
    IN IF a[2] = 1 THEN m
       ELSE Enter(Call([m EXCEPT !.major = @ + 1, !.conv = 0, !.res = CONFIRM, !.lastDec = 0,
                                 !.ok = Linear(s) \/ a[1] # NORMAL],
                       Asc(s, LAMBDA i : <<1, i, 0, 0, 0>>)), 1)

\* Accept, delay or reject the solution of a non-linear network.
Converged(s) == \A i \in Links(s) : Abs(s.Pm[i] - s.P[i]) <= s.tol
Verdict(s, conv) ==
    LET v(i) == IF conv = 0 /\ s.vote[i] = DELAY THEN CONFIRM ELSE s.vote[i]
    IN IF \E i \in Links(s) : s.nl[i] /\ v(i) = REJECT THEN REJECT
       ELSE IF \E i \in Links(s) : s.nl[i] /\ v(i) = DELAY THEN DELAY ELSE CONFIRM
Judge(s) ==
    LET delayed == s.res = DELAY
        d == IF delayed THEN s ELSE [s EXCEPT !.nc = [i \in Links(s) |-> Abs(s.Pm[i] - s.P[i])]]
        conv == s.conv + (IF delayed \/ Converged(s) THEN 1 ELSE 0)
        res == Verdict(s, conv)
        e == [Call(d, OverNL(s, LAMBDA i : <<4, i, conv, s.k, s.lp[i]>>)) EXCEPT
                !.res = res, !.conv = conv,
                !.lc = [i \in Links(s) |-> IF ~s.nl[i] THEN @[i]
                                           ELSE IF conv = 0 /\ s.vote[i] = DELAY THEN CONFIRM ELSE s.vote[i]]]
    IN IF res = REJECT
       THEN LET r == Output([e EXCEPT !.P = s.Pm])
            IN Next([Call(r, OverNL(s, LAMBDA i : <<5, i, conv, s.k, r.lp[i]>>)) EXCEPT
                       !.conv = 0, !.rfail = @ + Cardinality({i \in Links(s) : s.nl[i] /\ ~s.rok[i]})])
       ELSE LET c == [e EXCEPT !.Pm = s.P]
            IN IF res = CONFIRM /\ conv > 0
               THEN IF ~s.worst \/ s.dlim <= s.lastDec THEN Done(c, TRUE) ELSE Next([c EXCEPT !.ok = TRUE])
               ELSE Next(c)

Minor(s, a) ==
    LET s0 == [s EXCEPT !.calls = <<>>, !.threw = FALSE] IN
    IF s.k = 0 THEN s0
    ELSE LET s1 == Answers(s0, a)
             T  == IF s.k = 1 THEN Links(s) ELSE {i \in Links(s) : s.nl[i]}
             s2 == IF s.k = 1 THEN Call(s1, Asc(s, LAMBDA i : <<2, i, 0, 0, 4>>))
                   ELSE Call(s1, OverNL(s, LAMBDA i : <<3, i, s.k, 0, 4>>))
             s3 == [Contribute(s2, a, T) EXCEPT !.stale = @ \/ s.worst]
             v  == Solve(s3)
             Go(x) == IF Linear(s) \/ s.mode # NORMAL THEN Next(x) ELSE Judge(x)
         IN IF s.res = DELAY THEN Go(s1)
            ELSE CASE v[1] = "ok"    -> Go(Output(Override(v[2])))
                   [] v[1] = "limit" -> Done(v[2], FALSE)
                   [] v[1] = "math"  -> Aborted(v[2])

Restart(s) == [s EXCEPT !.stale = TRUE, !.fail = 0, !.rfail = 0, !.maxMinor = 0, !.lastDec = 0,
                        !.maxDec = 0, !.worst = FALSE, !.calls = <<>>, !.threw = FALSE]

Apply(s, n, a) == CASE n = "Begin"   -> Begin(s, a)
                    [] n = "Minor"   -> Minor(s, a)
                    [] n = "Restart" -> Restart(s)

Obs(s) == IF s.k > 0
          THEN [busy |-> TRUE, threw |-> s.threw, clash |-> FALSE, calls |-> s.calls]
          ELSE [busy |-> FALSE, threw |-> s.threw, clash |-> FALSE, calls |-> s.calls,
                P |-> s.P, np |-> s.np, lp |-> s.lp,
                lc |-> IF Linear(s) THEN <<>> ELSE s.lc, nc |-> IF Linear(s) THEN <<>> ELSE s.nc, gp |-> 0,
                major |-> s.major, minor |-> s.minor, maxMinor |-> s.maxMinor, dec |-> s.dec,
                maxDec |-> s.maxDec, lastDec |-> s.lastDec, fail |-> s.fail, rfail |-> s.rfail,
                avg |-> (2 * 1000 * s.avgMinor + s.avgMajor) \div (2 * s.avgMajor)]
Match(s, o) == Obs(s) = o

-----------------------------------------------------------------------------
Configs == CfgSet
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Script(i, s) == IF s.k = 1 THEN {<<g, w, o, 4, v, 1>> : g \in Gs, w \in Ws, o \in Ovs, v \in Votes}
                ELSE IF ~s.nl[i] THEN { <<s.g[i], s.w[i], 0, 0, CONFIRM, 1>> }
                ELSE IF s.res = DELAY THEN { <<0, 0, 0, 0, v, 1>> : v \in Votes }
                ELSE {<<g, w, o, 4, v, 1>> : g \in Gs, w \in Ws, o \in Ovs, v \in Votes}
Inputs(s) ==
    IF s.k > 0 THEN { << <<"Minor", Flatten(f)>> >> : f \in {h \in [1..s.n -> UNION {Script(i, s) : i \in 1..s.n}] :
                                                        \A i \in 1..s.n : h[i] \in Script(i, s)} }
    ELSE { << <<"Begin", <<m>> \o f \o [i \in 1..s.n |-> 12]>> >> : m \in Modes, f \in Flags }
Bound(s) == s.major <= Majors
View(s) == [s EXCEPT !.calls = <<>>, !.minor = 0, !.avgMinor = 0, !.avgMajor = 1, !.maxMinor = 0, !.dec = 0,
                     !.maxDec = 0, !.fail = 0]

\* The properties.
NodesAgree(s) == s.np = s.P /\ s.lp = s.P
Limits(s)     == s.k <= s.mlim /\ s.lastDec <= s.dlim
Inv(s) == Limits(s)

Codes(s) == {s.calls[j][1] : j \in 1..Len(s.calls)}
StepOK(s, in, t) ==
    LET ended == s.k > 0 /\ t.k = 0
        accepted == ended /\ 6 \in Codes(t)
        rejected == 5 \in Codes(t)
    IN
    \* the solution is accepted only when no potential moved by more than the tolerance and every
    \* link agreed, at least in that minor step,
    /\ (accepted /\ ~Linear(s) /\ t.mode = NORMAL /\ ~t.worst =>
           /\ (\A i \in Links(t) : t.nc[i] <= t.tol)
           /\ \A i \in Links(t) : t.nl[i] => t.lc[i] = CONFIRM
           /\ t.conv > 0 /\ t.PM = t.P /\ t.Pm = t.P)
    \* a rejected minor step leaves the last minor step's potentials,
    /\ (rejected /\ t.k > 0 => t.P = s.Pm /\ t.lp = s.Pm /\ t.np = s.Pm /\ t.Pm = s.Pm)
    \* a failed major step leaves the last major step's, but for those overridden,
    /\ (ended /\ ~accepted /\ ~t.threw =>
           /\ t.fail = s.fail + 1
           /\ \A i \in Links(t) : ~t.ov[i] \/ t.mode # NORMAL => t.P[i] = s.PM[i])
    \* and outputs are processed exactly when it was accepted.
    /\ (7 \in Codes(t) <=> accepted)
    /\ (in[1] = "Begin" /\ t.k = 0 => t.P = s.P /\ t.major = s.major)
    /\ (ended /\ t.mode # DUMMY /\ ~t.threw => NodesAgree(t))
=============================================================================
