--------------------------- MODULE QUPredictTrace ---------------------------
(* Judges recorded predictions of Q and U from clean components.                     *)
(* out.q, out.u, out.i at scale 10^5, one per channel.                                *)
EXTENDS QUPredict, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
L0(in) == [num |-> in.num, den |-> in.den]
N(in) == Len(in.lam)
Rel(a, b, tol, ppm) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000
(* the argument logged by the harness is that of the reference frequency of the case *)
RefLam(in) == IF in.ref = 0 THEN L0(in) ELSE [num |-> in.ref, den |-> 1]
ArgOk(in) == in.fn = "none" \/ \A j \in DOMAIN in.lam :
    LET x == IF in.fn = "linear" THEN in.arg[j] ELSE Pow10(in.arg[j])
        r == FDiv(RefLam(in).num, RefLam(in).den * in.lam[j], 5) IN Rel(MulS(x, x), r, 12, 300)
Sh(in, j) == IF in.fn = "none" THEN S ELSE Shape(in.fn, in.p, in.arg[j])
Mo(in, j) == IF in.fn = "none" THEN S ELSE Model(in.fn, in.p, in.arg[j])
Amp(in) == SumF(LAMBDA c : Abs(in.comps[c].re) + Abs(in.comps[c].im), Len(in.comps))
Tol(in, j) == 6 * Len(in.comps) + (MulS(Amp(in) * 1000, Sh(in, j)) \div 4000)          \* 250 ppm
Q(in, j) == MulS(PredRe(in.comps, in.g, in.lam[j], L0(in)) \div 100, Sh(in, j))
U(in, j) == MulS(PredIm(in.comps, in.g, in.lam[j], L0(in)) \div 100, Sh(in, j))
PredictEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    IF ~ArgOk(in) THEN {"UnknownEvent"} ELSE
    Broken([RotatedSum |-> \A j \in 1..N(in) : Near(out.q[j], Q(in, j), Tol(in, j)) /\ Near(out.u[j], U(in, j), Tol(in, j)),
            StokesIModel |-> \A j \in 1..N(in) : Rel(out.i[j], Mo(in, j), 5, 400),
            FrequencyColumn |-> out.freq,
            InputsUnmodified |-> out.untouched])
(* predicted, then synthesised by RM synthesis at the depths of the orthogonal grid *)
RoundEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    IF \A k \in DOMAIN in.depths : At(in.comps, in.depths[k]) = <<0, 0>> THEN {} ELSE     \* no signal: no spectrum
    Broken([SynthesisRecovers |-> \A k \in DOMAIN in.depths : LET a == At(in.comps, in.depths[k])
                IN Near(out.fdf[k][1], 1000 * a[1], 8 + (Amp(in) \div 4)) /\ Near(out.fdf[k][2], 1000 * a[2], 8 + (Amp(in) \div 4)),
            ReferenceLambda |-> Near(out.lam0, 100 * in.num, 2)])
(* synthesised, cleaned, predicted: the source comes back.  Components in 1/1000 of Stokes I. *)
QT(in, j) == MulS(RDiv(PredRe(in.comps, in.g, in.lam[j], [num |-> 0, den |-> in.den]), 1000), Mo(in, j))
UT(in, j) == MulS(RDiv(PredIm(in.comps, in.g, in.lam[j], [num |-> 0, den |-> in.den]), 1000), Mo(in, j))
ChainTol(in, j) == 20 + (MulS(Amp(in) * 100, Mo(in, j)) * in.pct) \div 100
ChainEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    IF ~ArgOk(in) THEN {"UnknownEvent"} ELSE
    Broken([SourceComesBack |-> \A j \in 1..N(in) : Near(out.q[j], QT(in, j), ChainTol(in, j)) /\ Near(out.u[j], UT(in, j), ChainTol(in, j)),
            StokesIComesBack |-> \A j \in 1..N(in) : Rel(out.i[j], Mo(in, j), 20, 10000),
            FrequencyColumn |-> out.freq])
Verdict(ev) == CASE ev.op \in {"predict", "file"} -> PredictEv(ev.in, ev.out)
                 [] ev.op = "round" -> RoundEv(ev.in, ev.out)
                 [] ev.op = "chain" -> ChainEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
