---------------------------- MODULE RobustTrace -----------------------------
(* Judges recorded robust statistics, percentiles, moments and complexity metrics. *)
EXTENDS Robust, Trig, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
(* rows of values along the axis asked for *)
MadEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    Broken([MadDefinition |-> \A k \in DOMAIN in.rows : LET g == Good(in.rows[k]) IN
                IF g = <<>> THEN out.mad[k] = NaN ELSE Near(out.mad[k], FDiv(Mad4(g) * 2500, in.c, 3), 2 + (Mad4(g) \div 400)),
            MedianDefinition |-> \A k \in DOMAIN in.rows : LET g == Good(in.rows[k]) IN
                IF g = <<>> THEN out.med[k] = NaN ELSE Near(out.med[k], 500 * Med2(g), 1),
            MeanDefinition |-> \A k \in DOMAIN in.rows : LET g == Good(in.rows[k]) IN
                IF g = <<>> THEN out.mean[k] = NaN ELSE Near(out.mean[k], FDiv(SumSeq(g), Len(g), 3), 2),
            DeviationDefinition |-> \A k \in DOMAIN in.rows : LET g == Good(in.rows[k]) IN
                IF g = <<>> THEN out.var[k] = NaN ELSE Near(out.var[k], FDiv(Var2(g), Len(g) * Len(g), 3), 3 + (Var2(g) \div (Len(g) * Len(g) * 100))),
            InputsUnmodified |-> out.untouched])
PctEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([FirstCrossing |-> \A k \in DOMAIN in.q : Same(out.v[k], Crossing(in.x, in.p, in.q[k]), 2)])
MomEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET K == SumSeq(in.a) e == FDiv(Mom2K2(in.a, in.x), K * K, 4)
    IN Broken([SecondMoment |-> \A v \in {out.m[i] : i \in DOMAIN out.m} : Near(v, e, 3 + (e \div 50000))])

(* ---------------- the scatter posterior ---------------- *)
(* r, d: residuals and errors (thousandths); p: recorded posterior (sum about 10^8); lg: its log10 (10^4)  *)
Smp(r, d, n, i) == RDiv(Span(r, d) * i, n)
PosteriorOK(r, d, n, lg, at) ==
    LET top == CHOOSE i \in DOMAIN at : \A j \in DOMAIN at : lg[j] <= lg[i]
        e == TLCEval([i \in DOMAIN at |-> LgPost(r, d, Smp(r, d, n, at[i]), at[i])])
    IN \A i \in DOMAIN at : IF lg[i] < lg[top] - 40000 THEN e[i] - e[top] < -37000 ELSE Near(lg[i] - lg[top], e[i] - e[top], 150 + (Len(r) * 8))
ChiRedOK(r, d, n, chi, at) == \A i \in DOMAIN at :
    LET c == Chi(r, d, Smp(r, d, n, at[i])) \div (Len(r) - 1) IN Near(chi[i], c, 60 + (c \div 60))
(* cumulative share (10^6) at position v (10^-4 samples) *)
Cum(p) == LET f == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, p) IN f
ShareAt(c, v) == LET n == Len(c) - 1
                     j == v \div 10000
                     fr == v % 10000
                     at(i) == IF i < 0 THEN 0 ELSE IF i >= n THEN c[n + 1] ELSE c[i + 1]
                     s == at(j) + (((at(j + 1) - at(j)) \div 1000) * fr) \div 10
                 IN FDiv(s, c[n + 1] \div 1000, 3)
(* the value v reported for level q (10^-6): crossing of the cumulative curve, or its first sample *)
LevelOK(c, v, q, tol) == IF c[2] \div 1000 >= ((c[Len(c)] \div 1000) * ((q + tol) \div 1000)) \div 1000 THEN Near(v, 10000, 2)
                         ELSE Near(ShareAt(c, v), q, tol) \/ (v <= 10002 /\ v >= 9998 /\ ShareAt(c, 10000) >= q - tol)
ScatterOK(o) == LET c == TLCEval(Cum(o.p)) IN LevelOK(c, o.mid, 500000, 1500) /\ LevelOK(c, o.mid - o.lo, 158000, 2600) /\ LevelOK(c, o.mid + o.hi, 842000, 2600)
NormOK(o) == Near(o.area, 100000, 5)
SigEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET med == IF in.ymed = NaN THEN 500 * Med2(in.y) ELSE 1000 * in.ymed
        r == [i \in DOMAIN in.y |-> IF in.y[i] = NaN THEN NaN ELSE (1000 * in.y[i]) - med]
        d == [i \in DOMAIN in.d |-> 1000 * in.d[i]]
        full == \A i \in DOMAIN in.y : in.y[i] # NaN
    IN Broken([Posterior |-> PosteriorOK(r, d, in.n, out.s.lg, out.s.at),
               Sampling |-> Near(out.s.step, 1000 * in.n, 1) \/ Span(r, d) = 0,
               Normalised |-> NormOK(out.s),
               ReducedChi |-> full => ChiRedOK(r, d, in.n, out.s.chi, out.s.at),
               Percentiles |-> ScatterOK(out.s),
               InputsUnmodified |-> out.untouched])
(* residuals of q and u against the Faraday-thin model, in units of the errors; angle of the model in half degrees *)
Thin(in, j) == (in.psi2 + (in.g * in.rm * in.lam[j])) % 720
Resid(in, v, d, j, c) == IF v[j] = NaN THEN NaN ELSE LET k == Thin(in, j) m == IF c = 1 THEN Cos(k) ELSE Sin(k)      \* p, q, u, d in thousandths
                         IN RDiv((100 * v[j] - RDiv(in.p * m, 1000)) * 10, d[j])
CxEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET rq == [j \in DOMAIN in.lam |-> Resid(in, in.q, in.dq, j, 1)]
        ru == [j \in DOMAIN in.lam |-> Resid(in, in.u, in.du, j, 2)]
        rc == rq \o ru
        d1 == [j \in DOMAIN in.lam |-> 1000]
        d2 == d1 \o d1
        ok(o, r, d) == ScatterOK(o) /\ NormOK(o)
    IN Broken([ResidualQ |-> \A j \in DOMAIN in.lam : Same(out.yq[j], rq[j], 2 + (1000 \div in.dq[j])),
               ResidualU |-> \A j \in DOMAIN in.lam : Same(out.yu[j], ru[j], 2 + (1000 \div in.du[j])),
               Combined |-> out.yc = out.yq \o out.yu,
               UnitErrors |-> \A j \in DOMAIN in.lam : (out.dy[j] = 1000 \/ in.q[j] = NaN) /\ Len(out.dy) = Len(in.lam),
               Posterior |-> PosteriorOK(out.yq, d1, 1000, out.Q.lg, out.Q.at) /\ PosteriorOK(out.yu, d1, 1000, out.U.lg, out.U.at) /\ PosteriorOK(out.yc, d2, 1000, out.C.lg, out.C.at),
               Percentiles |-> ScatterOK(out.Q) /\ ScatterOK(out.U) /\ ScatterOK(out.C),
               Normalised |-> NormOK(out.Q) /\ NormOK(out.U) /\ NormOK(out.C),
               (* residuals well within their errors: the scatter is consistent with zero *)
               ZeroExcess |-> (in.zero = 1 /\ \A j \in DOMAIN rc : rc[j] = NaN \/ Abs(rc[j]) <= 500) => out.C.mid <= out.C.one,
               InputsUnmodified |-> out.untouched])
(* a whole run: its metrics are those of its own residuals *)
RunEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([MetricsOfOwnFit |-> \A i \in DOMAIN out.run : Same(out.run[i], out.own[i], 20 + (Abs(out.own[i]) \div 20000)),
            AllMetrics |-> Len(out.run) = (IF in.clean = 1 THEN 10 ELSE 9)])
Verdict(ev) == CASE ev.op = "mad" -> MadEv(ev.in, ev.out)
                 [] ev.op = "pct" -> PctEv(ev.in, ev.out)
                 [] ev.op = "mom" -> MomEv(ev.in, ev.out)
                 [] ev.op = "sig" -> SigEv(ev.in, ev.out)
                 [] ev.op = "cx" -> CxEv(ev.in, ev.out)
                 [] ev.op = "run" -> RunEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
