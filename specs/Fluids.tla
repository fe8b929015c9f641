----------------------------- MODULE Fluids -----------------------------
(* Fluid mixtures (PolyFluid, MonoFluid, GunnsFluidTraceCompounds): three fluids of the same three gases (nitrogen, carbon dioxide, helium) and two trace compounds
   (ammonia, carbon monoxide) are set, copied, mixed, edited and asked. The mixture is the state; whatever is derived of it must agree with it.

   Units: temperature 0.01 K, pressure Pa, flow 1e-6 kg/s (arguments 1e-4), mass 1e-6 kg (1e-3), moles 1e-7 kmol (1e-5), fractions 1e-6, molecular weight 1e-3 kg/kmol,
   density 1e-6 kg/m3, specific heat 0.01 J/kg/K, enthalpy J/kg; trace compounds: mole fraction 1e-9, mass 1e-8 kg. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Why

CONSTANTS CfgSet, MaxSteps, Strict

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Within(x, y, tol) == Abs(x - y) <= tol
\* x y / d for 0 < d <= 46340
MU(x, y, d) == ((x \div d) * y) + ((x % d) * (y \div d)) + (((x % d) * (y % d)) \div d)
MD(x, y, d) == IF x < 0 THEN (IF y < 0 THEN MU(-x, -y, d) ELSE -MU(-x, y, d)) ELSE (IF y < 0 THEN -MU(x, -y, d) ELSE MU(x, y, d))
M6(x, y) == MD(x, y, 40000) \div 25                  \* x y / 1e6

K == 1..3
C == 1..2
M == <<28013, 44010, 4003>>
HeatA == <<101355, 69472, 519320>>                     \* specific heat at 0 K and its slope, 1e-5 J/kg/K2
HeatB == <<13174, 52273, -410>>
TM == <<17031, 28010>>
FULL == 1000000
Sum(v) == v[1] + v[2] + v[3]
Zero == <<0, 0, 0>>

(* ---- equations of state *)
HeatOf(mf, t) == Sum([k \in K |-> M6(HeatA[k] + MD(HeatB[k], t, 10000) \div 10, mf[k])])
EnthalpyOf(mf, t) == MD(HeatOf(mf, t), t, 10000)
DensityOf(p, mw, t) == MD(MD(p, mw, 1000), 12027, t)
TraceMass(tx, n, k) == MD(MD(tx, n, 40000), TM[k], 10000) \div 250
\* (model only: the code's own molecular weight is compared with the fractions instead)
WeightOf(mf) == 1000000000 \div Sum([k \in K |-> MD(mf[k], 1000, M[k])])
TemperatureOf(mf, h) == LET RECURSIVE G(_, _) G(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF EnthalpyOf(mf, m) <= h THEN G(m, hi) ELSE G(lo, m) IN G(1, 46000)

NoFluid == [t |-> 0, p |-> 0, fl |-> 0, m |-> 0, n |-> 0, mf |-> Zero, mw |-> 0, h |-> 0, tx |-> <<0, 0>>, tm |-> <<0, 0>>]
\* what must agree: pp - partial pressures, d - density, n - moles and constituents' masses with the mass, tc - masses of trace compounds with their fractions;
\* empty - no composition; acc - gathers flows since it was reset; wild - fractions of trace compounds that mean nothing
Sound == [pp |-> TRUE, d |-> TRUE, n |-> TRUE, tc |-> TRUE, empty |-> FALSE, acc |-> FALSE, wild |-> FALSE]
WithMf(x, mf) == [x EXCEPT !.mf = mf, !.mw = WeightOf(mf)]
WithX(x, xs) == LET mw == Sum([k \in K |-> M6(M[k], xs[k])]) IN [x EXCEPT !.mf = [k \in K |-> MD(xs[k], M[k], mw)], !.mw = mw]
Moles(x) == [x EXCEPT !.n = MD(x.m, 10000, x.mw)]
Masses(x) == [x EXCEPT !.m = MD(x.n, x.mw, 10000)]
Warm(x) == [x EXCEPT !.h = EnthalpyOf(x.mf, x.t)]
Traces(x) == [x EXCEPT !.tm = [k \in C |-> TraceMass(x.tx[k], x.n, k)]]
Tr(x, ok) == IF ok.wild THEN x ELSE Traces(x)
\* fractions of trace compounds of their masses among the moles n; none that is less than nothing, and none of a compound that isn't there where there are no moles
Fractions(x, n) == IF n = 0 THEN [x EXCEPT !.tm = [k \in C |-> IF x.tx[k] = 0 THEN 0 ELSE x.tm[k]]]
                   ELSE [x EXCEPT !.tx = [k \in C |-> IF x.tm[k] <= 0 THEN 0 ELSE IF n < 46340 THEN MD(MD(x.tm[k], 1000, TM[k]), 10000, n) * 1000 ELSE MD(MD(x.tm[k], 1000, TM[k]), 10000, n \div 1000)],
                                  !.tm = [k \in C |-> Max(0, x.tm[k])]]

(* a configuration: for each fluid temperature, pressure, flow, mass, fractions (0.001) of the second and third gas, fractions of the trace compounds *)
Initial(a, i) == LET b == 8 * (i - 1) IN Traces(Moles(Warm(WithMf([NoFluid EXCEPT !.t = a[b+1], !.p = a[b+2], !.fl = a[b+3] * 100, !.m = a[b+4] * 1000, !.tx = <<a[b+7], a[b+8]>>],
                                              <<(1000 - a[b+5] - a[b+6]) * 1000, a[b+5] * 1000, a[b+6] * 1000>>))))
S0(c) == [ c |-> c, f |-> [i \in K |-> Initial(c, i)], ok |-> [i \in K |-> Sound], pre |-> [i \in K |-> NoFluid], act |-> "Init", arg |-> <<0, 0>>, given |-> "mf", threw |-> FALSE, n |-> 0 ]

Norm(v) == [k \in K |-> v[k] - M6(Sum(v) - FULL, v[k])]      \* fractions that nearly add up to 1
Bad(v) == Abs(Sum(v) - FULL) > 100
\* how much of b is in a mixture of flows F and q
Mixed(x, F, y, q) == MD(x, F, F + q) + MD(y, q, F + q)

Apply(s0, name, a) ==
    LET i == a[1] + 1
        j == IF name \in {"Set", "Copy", "Add", "TcIn"} THEN a[2] + 1 ELSE 1
        s == [s0 EXCEPT !.n = @ + 1, !.act = name, !.arg = a, !.pre = s0.f, !.threw = FALSE, !.given = "mf"]
        x == s0.f[i]
        y == s0.f[j]
        ok == s0.ok[i]
        to(z, o) == [s EXCEPT !.f[i] = z, !.ok[i] = o]
    IN
    CASE name = "Reset" -> to(NoFluid, [Sound EXCEPT !.empty = TRUE, !.acc = TRUE])
      [] name = "Set"   -> to([y EXCEPT !.m = x.m, !.n = x.n, !.tm = x.tm], [s0.ok[j] EXCEPT !.n = FALSE, !.tc = FALSE, !.acc = FALSE])
      [] name = "Copy"  -> to(Tr(y, s0.ok[j]), [s0.ok[j] EXCEPT !.pp = Strict, !.tc = TRUE, !.acc = FALSE])    \* partial pressures: a known finding
      [] name = "Add"   ->
            LET q == IF a[3] = 0 THEN y.fl \div 100 ELSE a[3]
                F == x.fl \div 100
                z == WithMf([x EXCEPT !.fl = (F + q) * 100, !.h = Mixed(x.h, F, y.h, q)], [k \in K |-> Mixed(x.mf[k], F, y.mf[k], q)])
                w == [z EXCEPT !.t = TemperatureOf(z.mf, z.h), !.p = y.p, !.tm = [k \in C |-> IF ok.wild \/ ~ok.acc \/ s0.ok[j].wild THEN 0 ELSE x.tm[k] + TraceMass(y.tx[k], MD(q, FULL, y.mw), k)]]
            IN to(Fractions(w, MD(w.fl, 10000, w.mw)), [ok EXCEPT !.pp = FALSE, !.d = FALSE, !.n = FALSE, !.tc = FALSE, !.empty = FALSE, !.wild = @ \/ s0.ok[j].wild \/ ~ok.acc])
      [] name = "Temp"  -> to(Warm([x EXCEPT !.t = a[2]]), [ok EXCEPT !.pp = TRUE, !.d = TRUE])
      [] name = "Press" -> to([x EXCEPT !.p = a[2]], [ok EXCEPT !.pp = FALSE, !.d = TRUE])
      [] name = "Flow"  -> to([x EXCEPT !.fl = a[2] * 100], [ok EXCEPT !.acc = FALSE])
      [] name = "Mass"  -> to(Tr(Moles([x EXCEPT !.m = a[2] * 1000]), ok), [ok EXCEPT !.n = TRUE, !.tc = TRUE, !.acc = FALSE])
      [] name = "Mole"  -> [to(Masses([x EXCEPT !.n = a[2] * 100]), [ok EXCEPT !.n = TRUE, !.tc = FALSE, !.acc = FALSE]) EXCEPT !.given = "n"]
      [] name = "Mix"   -> IF Bad(<<a[3], a[4], a[5]>>) THEN [s EXCEPT !.threw = TRUE]
                           ELSE to(Warm(Moles(WithMf([x EXCEPT !.m = a[2] * 1000], Norm(<<a[3], a[4], a[5]>>)))), [ok EXCEPT !.pp = TRUE, !.d = TRUE, !.n = TRUE, !.tc = FALSE, !.acc = FALSE])
      [] name = "MixMole" -> IF Bad(<<a[3], a[4], a[5]>>) THEN [s EXCEPT !.threw = TRUE]
                           ELSE [to(Warm(Masses(WithX([x EXCEPT !.n = a[2] * 100], Norm(<<a[3], a[4], a[5]>>)))), [ok EXCEPT !.pp = TRUE, !.d = TRUE, !.n = TRUE, !.tc = FALSE, !.acc = FALSE])
                                 EXCEPT !.given = "x", !.arg = <<a[1], a[2], a[3], a[4], a[5]>>]
      [] name = "Masses" -> LET all == a[2] + a[3] + a[4] IN
                           to(Tr(Moles(Warm(WithMf([x EXCEPT !.m = all * 1000], [k \in K |-> MD(FULL, a[k + 1], all)]))), ok), [ok EXCEPT !.pp = TRUE, !.d = TRUE, !.n = TRUE, !.tc = TRUE, !.acc = FALSE])
      [] name = "Edit"  -> to(Warm([x EXCEPT !.t = a[2], !.p = Max(0, a[3])]), [ok EXCEPT !.pp = TRUE, !.d = TRUE])
      [] name = "EditMix" -> LET v == [k \in K |-> Max(0, a[k + 2])]  p == Sum(v) IN
                           IF p = 0 THEN to(Warm([x EXCEPT !.t = a[2], !.p = 0]), [ok EXCEPT !.pp = TRUE, !.d = TRUE])
                           ELSE [to(Warm(Masses(WithX([x EXCEPT !.t = a[2], !.p = p], [k \in K |-> IF p <= 46340 THEN MD(v[k], FULL, p) ELSE MD(v[k], 125000, p \div 8)]))), [ok EXCEPT !.pp = TRUE, !.d = TRUE, !.n = TRUE, !.acc = FALSE]) EXCEPT !.given = "x"]
      [] name = "TcMass" -> to(Fractions([x EXCEPT !.tm[a[2] + 1] = a[3]], x.n), [ok EXCEPT !.tc = x.n > 0])
      [] name = "TcIn"  -> to(Fractions([x EXCEPT !.tm = [k \in C |-> x.tm[k] + TraceMass(y.tx[k], a[3] * 100, k)]], x.n), [ok EXCEPT !.tc = x.n > 0])
      [] name = "TcRates" -> to(Fractions([x EXCEPT !.tm = [k \in C |-> Max(0, x.tm[k] + a[k + 1] \div 2)]], x.n), [ok EXCEPT !.tc = x.n > 0])
      [] name = "TcOut" -> to(Fractions([x EXCEPT !.tm = [k \in C |-> Max(0, x.tm[k] - TraceMass(x.tx[k], Max(0, a[2]) * 100, k))]], x.n), [ok EXCEPT !.tc = x.n > 0])
      [] name = "Ask"   -> s
Obs(s) == [threw |-> s.threw]

(* ---- what is observed *)
\* The parts of a fluid agree with one another, as far as they are meant to.
Agree(o, ok) ==
    LET near(x) == 3 + Abs(x) \div Max(1, o.mw)            \* what the rounding of the molecular weight costs
    IN /\ Why("fractions of mass", Within(Sum(o.mf), IF ok.empty THEN 0 ELSE FULL, 3))
       /\ Why("fractions of moles", Within(Sum(o.x), IF ok.empty THEN 0 ELSE FULL, 3))
       /\ Why("mole and mass fractions", ok.empty \/ \A k \in K : Within(o.x[k], MD(o.mf[k], o.mw, M[k]), near(o.x[k]) + Abs(o.x[k]) \div M[k] + o.mw \div M[k]))
       /\ Why("specific heat", Within(o.cp, HeatOf(o.mf, o.t), 8))
       /\ Why("enthalpy", Within(o.h, EnthalpyOf(o.mf, o.t), 45))
       /\ \A q \in 1..4 : Why(<<"viscosity", "thermal conductivity", "Prandtl number", "adiabatic index">>[q],
              Within(o.whole[q], Sum([k \in K |-> M6(o.each[4 * (k - 1) + q], IF q = 2 THEN o.mf[k] ELSE o.x[k])]), 12 + Abs(o.whole[q]) \div 50000))
       /\ Why("flow of each", \A k \in K : Within(o.cf[k], M6(o.fl, o.mf[k]), 2 + Abs(o.fl) \div 400000))
       /\ Why("density", ~ok.d \/ ok.empty \/ Within(o.d, DensityOf(o.p, o.mw, o.t), 10 + o.d \div 5000 + o.d \div o.mw + o.d \div o.t))
       /\ Why("partial pressures", ~ok.pp \/ \A k \in K : Within(o.pp[k], M6(o.p, o.x[k]), 2 + o.p \div 400000))
       /\ Why("moles of the mass", ~ok.n \/ ok.empty \/ Within(o.n, MD(o.m, 10000, o.mw), near(o.n)))
       /\ Why("mass of each", ~ok.n \/ \A k \in K : Within(o.cm[k], M6(o.m, o.mf[k]), 2 + o.m \div 400000))
       /\ Why("mass of trace compounds", ~ok.tc \/ ok.wild \/ \A k \in C : Within(o.tm[k], TraceMass(o.tx[k], o.n, k), 3 + TraceMass(1, o.n, k) + o.tm[k] \div 3000))
Same(o, was) ==
    /\ o.t = was.t /\ o.p = was.p /\ o.fl = was.fl /\ o.m = was.m /\ o.n = was.n /\ o.mf = was.mf /\ o.mw = was.mw /\ o.h = was.h /\ o.tx = was.tx /\ o.tm = was.tm
\* The fluid an operation is done to becomes what the model says.
Becomes(s, o, w) ==
    LET add == s.act = "Add"
        was == s.pre[s.arg[1] + 1]
        q == IF ~add THEN 0 ELSE IF s.arg[3] = 0 THEN s.pre[s.arg[2] + 1].fl \div 100 ELSE s.arg[3]
        F == was.fl \div 100
        loss == IF add THEN 2 + (Abs(F) + Abs(q)) \div (F + q) ELSE 1
        trace == s.act \in {"TcMass", "TcIn", "TcRates", "TcOut"} \/ add
        i == s.arg[1] + 1
    IN /\ Why("temperature", IF add THEN Within(o.t, w.t, 6 + 2 * loss) ELSE o.t = w.t)
       /\ Why("pressure", add \/ o.p = w.p)
       /\ Why("flow", o.fl = w.fl)
       /\ Why("enthalpy of the mixture", s.given = "x" \/ Within(o.h, w.h, IF add THEN 3 * loss ELSE 45))
       /\ Why("mass", IF s.given = "mf" THEN o.m = w.m ELSE TRUE)
       /\ Why("moles", s.given = "mf" \/ o.n = w.n)
       /\ Why("moles that stay", (s.act \in {"Set", "Add", "Flow", "Press", "Temp", "Edit", "EditMix", "TcMass", "TcIn", "TcRates", "TcOut"} => o.n = was.n)
                                 /\ (s.act = "Copy" => o.n = s.pre[s.arg[2] + 1].n))
       /\ Why("composition", CASE s.act = "EditMix" /\ s.given = "x" -> \A k \in K : Within(M6(o.p, o.x[k]), Max(0, s.arg[k + 2]), 2)
                               [] s.act = "MixMole" -> \A k \in K : Within(o.x[k], Norm(<<s.arg[3], s.arg[4], s.arg[5]>>)[k], 2)
                               [] OTHER -> \A k \in K : Within(o.mf[k], w.mf[k], IF add THEN 3 * loss ELSE IF s.act \in {"Mix", "Masses"} THEN 2 ELSE 0))
       /\ Why("mass of trace compounds afterwards", s.ok[i].wild \/ \A k \in C :
                IF s.act \in {"Set", "Temp", "Press", "Flow", "Mole", "Mix", "MixMole", "Edit", "EditMix", "Reset"} THEN o.tm[k] = w.tm[k]
                ELSE Within(o.tm[k], w.tm[k], 4 + (w.tm[k] + was.tm[k]) \div 2000 + (IF add THEN TraceMass(1, MD(Abs(q), FULL, s.pre[s.arg[2] + 1].mw), k) ELSE TraceMass(1, o.n + 100 * Abs(s.arg[Len(s.arg)]), k))))
       /\ Why("trace compounds of the mixed flow", ~add \/ s.ok[i].wild \/ \A k \in C :
                LET n == MD(o.fl, 10000, o.mw) IN o.tm[k] < 10 \/ Within(o.tm[k], TraceMass(o.tx[k], n, k), 4 + TraceMass(1, n, k) + o.tm[k] \div 1000 + o.tm[k] \div o.mw))
       /\ Why("fractions of trace compounds", trace \/ s.ok[i].wild \/ \A k \in C : Within(o.tx[k], w.tx[k], 0))
Match(s, o) ==
    /\ Why("refused", o.threw = s.threw)
    /\ IF s.act = "Init"
       THEN /\ Why("properties", \A k \in K : Within(o.M[k], M[k], 1) /\ Within(o.A[k], HeatA[k], 2) /\ Within(o.B[k], HeatB[k], 2))
            /\ Why("properties of trace compounds", \A k \in C : Within(o.tM[k], TM[k], 1))
            /\ \A i \in K : Why("initial fluid", /\ o.f[i].t = s.f[i].t /\ o.f[i].p = s.f[i].p /\ o.f[i].fl = s.f[i].fl /\ o.f[i].m = s.f[i].m /\ o.f[i].tx = s.f[i].tx /\ o.f[i].mf = s.f[i].mf)
       ELSE /\ \A i \in K : Why("others stay as they are", ((i = s.arg[1] + 1) /\ ~s.threw /\ s.act # "Ask") \/ Same(o.f[i], s.pre[i]))
            /\ IF s.act = "Ask"
               THEN LET x == o.f[s.arg[1] + 1]  a == o.ask IN
                    /\ Why("enthalpy at another temperature", Within(a.h, EnthalpyOf(x.mf, s.arg[2]), 45))
                    /\ Why("temperature of an enthalpy", Within(a.t, s.arg[2], 1))
                    /\ Why("density at another state", Within(a.d, DensityOf(s.arg[3], x.mw, s.arg[2]), 10 + a.d \div 5000 + a.d \div x.mw))
                    /\ Why("pressure of a density", Within(a.p, s.arg[3], 2 + s.arg[3] \div 50000))
               ELSE s.threw \/ Becomes(s, o.f[s.arg[1] + 1], s.f[s.arg[1] + 1])
    /\ \A i \in K : Agree(o.f[i], s.ok[i])
Absorb(s, o) == [s EXCEPT !.f = [i \in K |-> [t |-> o.f[i].t, p |-> o.f[i].p, fl |-> o.f[i].fl, m |-> o.f[i].m, n |-> o.f[i].n, mf |-> o.f[i].mf, mw |-> o.f[i].mw, h |-> o.f[i].h,
                                              tx |-> o.f[i].tx, tm |-> o.f[i].tm]]]

(* ---- properties of every history *)
Inv(s) == \A i \in K : LET x == s.f[i] IN
    /\ Within(Sum(x.mf), IF s.ok[i].empty THEN 0 ELSE FULL, 2000)
    /\ (\A k \in K : x.mf[k] >= -2) => (s.ok[i].empty \/ (x.mw >= M[3] - 100 /\ x.mw <= M[2] + 700))
    /\ x.m >= 0 /\ x.n >= 0
\* Mixing two streams that both flow in conserves mass and energy and ends between the two; no operation moves any other fluid.
StepOK(s, in, t) ==
    /\ \A i \in K : (in[1] # "Init" /\ i # in[2][1] + 1) => t.f[i] = s.f[i]
    /\ in[1] = "Add" => LET i == in[2][1] + 1  x == s.f[i]  y == s.f[in[2][2] + 1]  z == t.f[i] IN
            (z.fl > x.fl /\ x.fl >= 0) => /\ \A k \in K : z.mf[k] >= (IF x.fl = 0 \/ y.mf[k] < x.mf[k] THEN y.mf[k] ELSE x.mf[k]) - 4
                                          /\ z.t <= (IF x.fl = 0 \/ y.t > x.t THEN y.t ELSE x.t) + 60
                                          /\ z.t >= (IF x.fl = 0 \/ y.t < x.t THEN y.t ELSE x.t) - 60

(* ---- the graph *)
Fit(s, i, j, q) == LET F == s.f[i].fl \div 100  r == IF q = 0 THEN s.f[j].fl \div 100 ELSE q IN F + r > 0 /\ F + r <= 46000 /\ Abs(F) + Abs(r) <= 5 * (F + r)
                          /\ (r < 0 => \A k \in K : Mixed(s.f[i].mf[k], F, s.f[j].mf[k], r) >= 0)      \* what isn't in a mixture can't be taken out of it
Full(s, i) == ~s.ok[i].empty
Actions(s) ==
    {<<"Reset", <<i>>>> : i \in {0}} \cup {<<n, <<0, j>>>> : n \in {"Set", "Copy"}, j \in 1..2}
    \cup {in \in {<<"Add", <<0, j, q>>>> : j \in 1..2, q \in {0, 400, -200}} : Full(s, in[2][2] + 1) /\ Fit(s, 1, in[2][2] + 1, in[2][3])}
    \cup (IF ~Full(s, 1) THEN {} ELSE
          {<<"Temp", <<0, 35000>>>>, <<"Press", <<0, 60000>>>>, <<"Flow", <<0, 700>>>>, <<"Mass", <<0, 2000>>>>, <<"Mole", <<0, 5000>>>>, <<"Mix", <<0, 1000, 200000, 300000, 500000>>>>,
           <<"Mix", <<0, 1000, 200000, 300000, 400000>>>>, <<"MixMole", <<0, 4000, 600000, 400000, 0>>>>, <<"Masses", <<0, 500, 0, 700>>>>, <<"Edit", <<0, 28000, 90000>>>>,
           <<"EditMix", <<0, 31000, 20000, 0, 40000>>>>, <<"EditMix", <<0, 31000, 0, 0, 0>>>>, <<"Ask", <<0, 36000, 70000>>>>}
          \cup (IF s.ok[1].wild THEN {} ELSE {<<"TcMass", <<0, 1, 5000>>>>, <<"TcIn", <<0, 1, 1000>>>>, <<"TcRates", <<0, 4000, -4000>>>>, <<"TcOut", <<0, 500>>>>}))
Inputs(s) == {<<x>> : x \in Actions(s)}
Configs == CfgSet
Bound(s) == s.n <= MaxSteps
View(s) == <<s.f[1], s.ok[1], s.c, s.n>>
=============================================================================
