----------------------------- MODULE QUFitTrace -----------------------------
(* Judges recorded runs of QU fitting with a stand-in sampler, and recorded          *)
(* likelihood evaluations.                                                           *)
EXTENDS QUFit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
HCM == 180000
Emit1(in, v, j) == CScale(100 * in.gain, Emission(SourceOf(in.model, v), in.g, in.lam[j]))
Chans(in) == DOMAIN in.lam
Usable(in, j) == in.q[j] # NaN /\ in.dq[j] # NaN
Chi(in, v) == SumF(LAMBDA j : LET e == Emit1(in, v, j) IN Term(in.q[j], e[1], in.dq[j]) + Term(in.u[j], e[2], in.du[j]), Len(in.lam))
ChiTol(in, v) == SumF(LAMBDA j : LET e == Emit1(in, v, j) IN TermTol(in.q[j], e[1], in.dq[j], in.etol) + TermTol(in.u[j], e[2], in.du[j], in.etol), Len(in.lam))
ChiFar(in, v) == \E j \in Chans(in) : LET e == Emit1(in, v, j) IN Far(in.q[j], e[1], in.dq[j]) \/ Far(in.u[j], e[2], in.du[j])
Ang(n) == n \in {"psi0_deg", "psi01_deg", "psi02_deg", "psi03_deg"}
IsFixed(in, n) == n \in DOMAIN in.fixed
Free(in) == {n \in DOMAIN in.samples : ~IsFixed(in, n)}
Vec(in, k) == [n \in DOMAIN in.samples |-> IF IsFixed(in, n) THEN in.fixed[n] ELSE in.samples[n][k]]
NFree(in) == Cardinality(Free(in))
NData(in) == SumF(LAMBDA j : (IF in.q[j] # NaN /\ in.dq[j] # NaN THEN 1 ELSE 0) + (IF in.u[j] # NaN /\ in.du[j] # NaN THEN 1 ELSE 0), Len(in.lam))
(* likelihood: L + chi^2/2 depends on the errors only; out.like in 1/1000 *)
LikeOk(in, like) ==
    LET base == like[1] + (Chi(in, Vec(in, in.at[1])) \div 2)
    IN \A k \in DOMAIN like :
        LET v == Vec(in, in.at[k]) IN
        (ChiFar(in, v) \/ ChiFar(in, Vec(in, in.at[1]))) \/
        Near(like[k] + (Chi(in, v) \div 2), base, 5 + (ChiTol(in, v) \div 2) + (ChiTol(in, Vec(in, in.at[1])) \div 2))
LikeEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET a == out.like[1] + (Chi(in, Vec(in, in.at[1])) \div 2)
        c == [in EXCEPT !.q = in.q2, !.u = in.u2]
        b == out.like2 + (Chi(c, Vec(in, in.at[1])) \div 2)
        far == ChiFar(in, Vec(in, in.at[1])) \/ ChiFar(c, Vec(in, in.at[1]))
        t == 5 + (ChiTol(in, Vec(in, in.at[1])) \div 2) + (ChiTol(c, Vec(in, in.at[1])) \div 2)
    IN Broken([Gaussian |-> LikeOk(in, out.like),
               ErrorsOnly |-> far \/ Near(a, b, t),
               ChiSquare |-> \A k \in DOMAIN in.at : LET v == Vec(in, in.at[k]) IN ChiFar(in, v) \/ Near(out.chi[k], Chi(in, v), 5 + ChiTol(in, v)),
               Repeatable |-> out.again])
(* ---- reported fit ---- *)
Reported(in, out, n) == LET k == CHOOSE k \in DOMAIN out.names : out.names[k] = n IN k
PTol(in, s) == 2 + in.ptol
ParOk(in, out, n) ==
    LET k == Reported(in, out, n) s == in.samples[n] IN
    IF IsFixed(in, n) THEN Near(out.val[k], in.fixed[n], 2) /\ Near(out.plus[k], 0, 2) /\ Near(out.minus[k], 0, 2)
    ELSE IF Ang(n) THEN
        Tight(s, HCM) => LET c == Circular(s, HCM)
          IN IsNum(out.val[k]) /\ Abs(Off(out.val[k], c.med, HCM)) <= PTol(in, s) /\ Near(out.plus[k], c.plus, PTol(in, s)) /\ Near(out.minus[k], c.minus, PTol(in, s))
    ELSE LET c == Linear(s) IN Near(out.val[k], c.med, PTol(in, s)) /\ Near(out.plus[k], c.plus, PTol(in, s)) /\ Near(out.minus[k], c.minus, PTol(in, s))
BestLnl(in) == MaxSeq(in.lnl)
Mil(k) == 1000 * k
FitEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.saved THEN {"FilesWritten"} ELSE
    IF {out.names[k] : k \in DOMAIN out.names} # DOMAIN in.samples THEN {"ParameterNames"} ELSE
    LET best == [n \in DOMAIN in.samples |-> out.val[Reported(in, out, n)]]
        chi == Chi(in, best)  ct == ChiTol(in, best) + in.ctol
        far == ChiFar(in, best)
        k == NFree(in)  n == NData(in)
        corr == (Mil(2 * k * (k + 1))) \div (n - k - 1)
    IN Broken([
        Medians |-> \A p \in DOMAIN in.samples : ParOk(in, out, p),
        AngleRange |-> \A p \in DOMAIN in.samples : Ang(p) /\ ~IsFixed(in, p) => LET v == out.val[Reported(in, out, p)] IN v >= 0 /\ v <= HCM,
        ChiSquare |-> far \/ Near(out.chi, chi, 5 + ct + (chi \div 20000)),
        FreeParameters |-> out.nfree = k,
        DegreesOfFreedom |-> Near(out.dof, Mil(n - k - 1), 1),
        ReducedChiSquare |-> far \/ Near(out.chired, out.chi \div (n - k - 1), 3 + (out.chi \div 50000)),
        AIC |-> Near(out.aic, Mil(2 * k) - (2 * BestLnl(in)), 3),
        AICc |-> Near(out.aicc, Mil(2 * k) - (2 * BestLnl(in)) + corr, 3),
        (* (BIC + 2 lnL)/k = ln n *)
        BIC |-> LET x == (out.bic + (2 * BestLnl(in))) \div k IN Near(Pow10((x * 4343) \div 100), n * S, 1000 + (n * S) \div 300),
        Evidence |-> Near(out.lnev, in.ev, 2) /\ Near(out.dlnev, in.dev, 2),
        Likelihood |-> LikeOk(in, out.like),
        SamplerSettings |-> out.conf,
        FilesAgree |-> out.files,
        InputsUnmodified |-> out.untouched])
(* which file a model comes from *)
WhichEv(in, out) ==
    Broken([ModelSource |-> out.from = (IF in["local"] THEN "local" ELSE IF in.installed THEN "installed" ELSE "exit"),
            LikelihoodSame |-> out.from = "exit" \/ out.likefrom = out.from])
Verdict(ev) == CASE ev.op = "like" -> LikeEv(ev.in, ev.out)
                 [] ev.op = "fit" -> FitEv(ev.in, ev.out)
                 [] ev.op = "which" -> WhichEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
