---------------------------- MODULE StokesITrace ----------------------------
(* Recorded Stokes I fits, changes of reference frequency, and fractional spectra. *)
EXTENDS StokesI, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rel(a, b, tol, ppm) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000

(* ---------------- fits ---------------- *)
Good(in) == {j \in DOMAIN in.f : IsNum(in.i[j]) /\ IsNum(in.d[j])}
NGood(in) == Cardinality(Good(in))
FoldG(in, F(_)) == SumF(LAMBDA j : IF j \in Good(in) THEN F(j) ELSE 0, Len(in.f))
(* residual over error *1000; in.i thousandths, m at 10^5, d thousandths *)
Res(in, m, j) == ((100 * in.i[j] - m[j]) * 10) \div in.d[j]
ResOK(in, m) == \A j \in Good(in) : Abs(100 * in.i[j] - m[j]) <= 3000 * in.d[j]
Chi1000(in, m) == FoldG(in, LAMBDA j : (Res(in, m, j) * Res(in, m, j)) \div 1000)
ChiOk(in, fit) == ResOK(in, fit.m) => Rel(fit.chi, Chi1000(in, fit.m), 40 * NGood(in), 12000)

(* centred basis functions on the lattice, scale 100: the span of 1, t, .., t^p *)
Mid(in) == (in.t[1] + in.t[Len(in.t)]) \div 2
Half(in) == Max2(1, Abs(in.t[Len(in.t)] - in.t[1]) \div 2)
Tn(in, j) == (100 * (in.t[j] - Mid(in))) \div Half(in)
RECURSIVE TPow(_, _, _)
TPow(in, j, k) == IF k = 0 THEN 100 ELSE (TPow(in, j, k - 1) * Tn(in, j)) \div 100
Term(in, m, j) == (((Res(in, m, j) * 100) \div in.d[j]) * (IF in.fn = "log" THEN m[j] \div 1000 ELSE 100)) \div 100
(* stationarity of chi^2 in the direction of basis function k *)
Grad(in, m, k) == FoldG(in, LAMBDA j : Term(in, m, j) * TPow(in, j, k))
GradScale(in, m, k) == FoldG(in, LAMBDA j : Abs(Term(in, m, j) * TPow(in, j, k)))
GradTol(in) == 100 * Len(in.f) * (12 + 1200 \div MinSeq([j \in DOMAIN in.f |-> IF j \in Good(in) THEN in.d[j] ELSE 1000]))
Optimal(in, fit) == (fit.ord <= in.optmax /\ ResOK(in, fit.m)) =>
                        \A k \in 0..fit.ord : Abs(Grad(in, fit.m, k)) <= GradTol(in) + GradScale(in, fit.m, k) \div 100

(* reference frequency: 1/sqrt(mean 1/f^2) over the good channels; in.f integers, ref *100 *)
RefOk(in, ref) == LET Ssum == FoldG(in, LAMBDA j : 100000000 \div (in.f[j] * in.f[j]))
                      r2 == FDiv(NGood(in) * 100000000, Ssum, 4)
                  IN Rel(ref * ref, r2, 2 * ref + 4, 2000)
FitClauses(in, fit, p) ==
    [ ChiSquare |-> ChiOk(in, fit),
      AicFormula |-> Near(fit.aic, 2000 * (fit.ord + 1) + fit.chi, 2),
      DegreesOfFreedom |-> fit.dof = NGood(in) - fit.ord - 1,
      ReducedChiSquare |-> fit.dof <= 0 \/ Near(fit.chired, fit.chi \div fit.dof, 2),
      ReferenceFrequency |-> in.geom # 0 \/ RefOk(in, fit.ref),
      UnusedAreZero |-> fit.unusedzero ]
(* AIC differences smaller than the logging precision are not judged *)
Clear(a) == \A q \in 1..(Len(a) - 1) : Abs(a[q + 1] - a[q]) > 3
ChosenOrder(a, k) == CHOOSE p \in 0..k : /\ \A q \in 0..(p - 1) : a[q + 2] < a[q + 1]
                                         /\ (IF p = k THEN TRUE ELSE a[p + 2] >= a[p + 1])
SameFit(a, b, mtol) == a.ord = b.ord /\ Rel(a.chi, b.chi, 3, 100) /\ Rel(a.aic, b.aic, 3, 100) /\ \A j \in DOMAIN a.m : Rel(a.m[j], b.m[j], mtol, 100)
Fit(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    UNION { Broken(FitClauses(in, out.fixed[p], p)) \cup Broken([OrderAsAsked |-> out.fixed[p].ord = p - 1, LeastSquares |-> Optimal(in, out.fixed[p])]) : p \in DOMAIN out.fixed }
    \cup Broken(FitClauses(in, out.dyn, 0))
    \cup LET a == [p \in DOMAIN out.fixed |-> out.fixed[p].aic] IN
         Broken([ OrderLimit |-> out.dyn.ord >= 0 /\ out.dyn.ord <= in.limit,
                  OrderChosenByAic |-> Clear(a) => out.dyn.ord = ChosenOrder(a, in.limit),
                  ReportsAcceptedOrder |-> SameFit(out.dyn, out.fixed[out.dyn.ord + 1], 30),
                  FlaggedIsDeleted |-> SameFit(out.dyn, out.sub, 60) /\ out.sub.dof = out.dyn.dof /\ Abs(out.sub.ref - out.dyn.ref) <= 1,
                  InputsUnmodified |-> out.untouched ])

(* ---------------- change of reference ---------------- *)
(* in.p at scale 10^5; in.steps: sequence of <<num, den>> (linear) or L (log);            *)
(* out.params[s] after each step; out.back after returning; out.values[s][m]               *)
RECURSIVE Chain(_, _, _, _)
Step(fn, p, st) == IF fn = "linear" THEN RenormLin(p, st[1], st[2]) ELSE RenormLog(p, st[1])
Chain(fn, p, steps, n) == IF n = 0 THEN p ELSE Step(fn, Chain(fn, p, steps, n - 1), steps[n])
ArgAt(in, m) == in.args[m]                      \* f/f0 or log10(f/f0), at the original reference
TolV(v) == 40 + Abs(v) \div 2500
Renorm(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET n == Len(in.steps)
        par == [s \in 1..n |-> Chain(in.fn, in.p, in.steps, s)]
        direct == out.direct
    IN Broken([
        Coefficients |-> \A s \in 1..n : \A k \in 1..6 : Near(out.params[s][k], par[s][k], 30 + 60 * (s - 1) + Abs(par[s][k]) \div 2000),
        ModelUnchanged |-> \A s \in DOMAIN out.values : \A m \in DOMAIN in.args :
             Near(out.values[s][m], Value(in.fn, in.p, ArgAt(in, m)), TolV(Value(in.fn, in.p, ArgAt(in, m)))),
        PathIndependent |-> \A k \in 1..6 : Near(out.params[n][k], direct[k], 3 + Abs(direct[k]) \div 100000),
        ReturnRestores |-> \A k \in 1..6 : Near(out.back[k], in.p[k], 3 + Abs(in.p[k]) \div 100000),
        ReferenceRecorded |-> out.refok,
        ErrorPropagation |-> \A k \in 1..6 :
             LET st == in.steps[1] IN
             IF in.fn = "linear" THEN
                 (* variance ratio: err^2 * den^2e = num^2e * C, logged as err/(x^e) squared *)
                 Rel(out.errn[k], 1000 * in.cov[k][k], 20, 2000)
             ELSE LET v == VarOf(LAMBDA j : JLog(k, j, st[1], in.p[6]), in.cov)
                  IN Rel(out.var[k], v \div 10, 30 + (in.covmax * 12), 10000),
        InputsUnmodified |-> out.untouched ])

(* propagation of uncertainties through one change of reference, covariance given by a factor *)
Prop(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([PropagatedErrors |-> \A k \in 1..6 : ErrorIs(out.err[k], k, in.fac, in.steps[1][1], in.p[6])])
(* ---------------- fractional spectra ---------------- *)
(* model, q, u at 10^5; in.q, in.u, in.dq, in.du thousandths *)
(* a fitted model logged as 0 may be a very small number: not judged *)
DivOk(val, num1000, m, fitted) ==
    IF fitted /\ m = 0 THEN TRUE
    ELSE IF num1000 = NaN \/ m = NaN \/ m = 0 THEN val = NaN
    ELSE IF Abs(m) < 20 THEN TRUE
    ELSE IF Abs(val) <= 200000 /\ Abs(m) <= 2000000 THEN Near(MulS(m, val), 100 * num1000, 4 + (Abs(m) \div S) * 2 + Abs(val) \div S)
    ELSE IF Abs(m) <= 200000 /\ Abs(val) <= 2000000 THEN Near(MulS(val, m), 100 * num1000, 4 + (Abs(val) \div S) * 2 + Abs(m) \div S)
    ELSE IsNum(val)
Frac(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET n == Len(in.q) m == out.m
        fitted == in.mode = "fit"
        amb == \E j \in 1..n : m[j] # NaN /\ (Abs(m[j]) <= 2 \/ (in.d[j] # NaN /\ Abs(m[j] - 100 * in.d[j]) <= 2))
        neg == \E j \in 1..n : m[j] # NaN /\ m[j] < 0
        anynan == \E j \in 1..n : m[j] = NaN
        low == \E j \in 1..n : m[j] # NaN /\ in.d[j] # NaN /\ m[j] < 100 * in.d[j]
    IN Broken([
        FractionalQ |-> \A j \in 1..n : DivOk(out.q[j], in.q[j], m[j], fitted),
        FractionalU |-> \A j \in 1..n : DivOk(out.u[j], in.u[j], m[j], fitted),
        FractionalErrors |-> \A j \in 1..n : DivOk(out.dq[j], in.dq[j], m[j], fitted) /\ DivOk(out.du[j], in.du[j], m[j], fitted),
        NegativeFlag |-> (fitted /\ ~amb /\ ~anynan) => ((out.status \div 128) % 2 = (IF neg THEN 1 ELSE 0)),
        LowSignalFlag |-> (fitted /\ ~amb) => ((out.status \div 64) % 2 = (IF low THEN 1 ELSE 0)),
        SuppliedModelUsed |-> in.mode = "model" => out.m = in.model /\ out.status = 0,
        FailedFitIsUnity |-> in.mode = "fail" => out.status = 9 /\ \A j \in 1..n : m[j] = S,
        InputsUnmodified |-> out.untouched ])

Judge(ev) == CASE ev.op = "fit" -> Fit(ev.in, ev.out)
               [] ev.op = "prop" -> Prop(ev.in, ev.out)
               [] ev.op = "renorm" -> Renorm(ev.in, ev.out)
               [] ev.op = "frac" -> Frac(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
