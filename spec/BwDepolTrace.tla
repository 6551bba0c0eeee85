---------------------------- MODULE BwDepolTrace ----------------------------
(* Judges recorded channel responses, adjoint syntheses and runs of the                 *)
(* bandwidth-depolarisation tool.  Complex outputs at scale 10^5.                       *)
EXTENDS BwDepol, MeasureFDF, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
CNear(o, e, tol) == Near(o[1], e[1], tol) /\ Near(o[2], e[2], tol)
Rel(a, b, tol, ppm) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000
AngNear(a, b, tol) == LET df == (a - b) % 180000 IN df <= tol \/ 180000 - df <= tol

RotEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    Broken([ChannelMean |-> \A i \in DOMAIN in.parts, k \in DOMAIN in.phi :
                CNear(out.r[i][k], Resp(in.g, in.phi[k], in.lam, in.parts[i][1], in.parts[i][2], in.n), in.rtol),
            AtMostOne |-> \A i \in DOMAIN in.parts, k \in DOMAIN in.phi : Mod2(out.r[i][k]) <= S + 20,
            SimulatedSource |-> \A i \in DOMAIN in.parts : \A k \in DOMAIN in.phi : CNear(out.s[i][k], CScale(in.amp * 100, CMul(<<Cos(4 * in.xi), Sin(4 * in.xi)>>, out.r[i][k])), 12)])

(* channels in use: neither weightless nor flagged *)
Used(in, j) == in.w[j] # NaN /\ in.w[j] > 0 /\ in.q[j] # NaN /\ in.u[j] # NaN
W(in) == [j \in DOMAIN in.lam |-> IF Used(in, j) THEN in.w[j] ELSE 0]
NumL(in, w) == IF in.l0 # <<>> THEN in.l0[1] ELSE SumF(LAMBDA j : w[j] * in.lam[j], Len(w))
DenL(in, w) == IF in.l0 # <<>> THEN in.l0[2] ELSE SumSeq(w)
RT(in, phi) == [j \in DOMAIN in.lam |-> Resp(in.g, phi, in.lam[j], -in.wid[j], in.wid[j], in.n)]
P(in) == [j \in DOMAIN in.lam |-> IF in.q[j] = NaN \/ in.u[j] = NaN THEN <<0, 0>> ELSE << S * in.q[j], S * in.u[j] >>]
MaxP(in) == MaxSeq([j \in DOMAIN in.lam |-> IF in.q[j] = NaN \/ in.u[j] = NaN THEN 1 ELSE 1 + Abs(in.q[j]) + Abs(in.u[j])])
WV(in, w) == [j \in DOMAIN w |-> IF w[j] = 0 THEN 0 ELSE IF in.sig = <<>> THEN w[j] ELSE (w[j] * in.sig[j]) * (w[j] * in.sig[j])]

(* rounding of |R|^2, carried by the variance *)
VTol(in, w) == (in.rtol * SumSeq(WV(in, w))) \div (SumSeq(w) * SumSeq(w))
AdjEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET w == W(in)
        rt == TLCEval([k \in DOMAIN in.phi |-> TLCEval(RT(in, in.phi[k]))])
        t == in.rtol * MaxP(in)
        one == \A k \in DOMAIN in.phi : Rel(out.noise2[k], Var(rt[k], WV(in, w), w), 40 + VTol(in, w), 2000)
    IN Broken([AdjointSum |-> \A k \in DOMAIN in.phi : CNear(out.fdf[k], AdjFDF(rt[k], P(in), w, Ref(in.g, in.phi[k], NumL(in, w), DenL(in, w))), t),
               ReferenceLambda |-> Near(out.lam0, FDiv(NumL(in, w), DenL(in, w), 4), 3),
               Sensitivity |-> \A k \in DOMAIN in.phi : Near(out.sens[k], Sens(rt[k], w), in.rtol),
               NoiseCurve |-> one,
               InputsUnmodified |-> out.untouched])
PredEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET w == [j \in DOMAIN in.lam |-> 1]
        rt == TLCEval([k \in DOMAIN in.phi |-> TLCEval(RT(in, in.phi[k]))])
        top == Sens(rt[1], w)                \* depth zero, where the noise is largest
    IN Broken([DepthGrid |-> \A k \in DOMAIN in.phi : Near(out.phi[k], 100 * in.phi[k], 1),
               Sensitivity |-> \A k \in DOMAIN in.phi : Near(out.sens[k], Sens(rt[k], w), in.rtol),
               NoiseCurve |-> \A k \in DOMAIN in.phi : Near(out.noise2[k], Sens(rt[k], w), 2 * in.rtol)])
(* spread function of a source at depth in.src *)
RmsfEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET w == W(in)
        n == Len(in.phi)  e == (n + 1) \div 2
        step == in.phi[2] - in.phi[1]
        rs == TLCEval(RT(in, in.src))
        full == n + (2 * e)
        ph(k) == IF in.double = 1 THEN in.phi[1] + ((k - 1 - e) * step) ELSE in.phi[k]
        len == IF in.double = 1 THEN full ELSE n
    IN IF Len(out.phi2) # len \/ Len(out.rmsf) # len THEN {"GridLength"} ELSE
       Broken([DepthGrid |-> \A k \in 1..len : Near(out.phi2[k], 100 * ph(k), 1),
               SpreadFunction |-> \A k \in 1..len : CNear(out.rmsf[k], AdjFDF(TLCEval(RT(in, ph(k))), rs, w, Ref(in.g, ph(k), NumL(in, w), DenL(in, w))), 2 * in.rtol),
               Width |-> in.fit = 1 \/ Near(out.fwhm, 3464, 2),
               InputsUnmodified |-> out.untouched])
(* a run: columns to spectrum and measurements.  fdf: reported spectrum over Stokes I *)
RunEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET w == W(in)
        n == (2 * in.half) + 1
        ph == [k \in 1..n |-> (k - 1 - in.half) * in.step]
        num == NumL(in, w)  den == DenL(in, w)
        rt == TLCEval([k \in 1..n |-> TLCEval(RT(in, ph[k]))])
        se == TLCEval([k \in 1..n |-> Sens(rt[k], w)])
        va == TLCEval([k \in 1..n |-> Var(rt[k], WV(in, w), w)])
        f == TLCEval([k \in 1..n |-> AdjFDF(rt[k], P(in), w, Ref(in.g, ph[k], num, den))])
        m == MaxP(in)
        t == in.rtol * m
        (* signal to noise squared, scale 1000/m^2 *)
        sn == TLCEval([k \in 1..n |-> LET a == << f[k][1] \div m, f[k][2] \div m >> IN FDiv(Mod2(a), Max2(1, va[k]), 4)])
        mx == MaxSeq([k \in 1..n |-> IF k \in 2..(n - 1) THEN sn[k] ELSE 0])
        cand == {k \in 2..(n - 1) : sn[k] >= mx - (mx \div 100) - 2}
        ix == [k \in 1..n |-> k - 1 - in.half]
        (* a vertex beyond the grid is not judged *)
        Outside(k) == IF Abs(An(out.amp, ix, k)) < 60 THEN TRUE ELSE Abs(VertexPhi(out.amp, ix, k)) > 1000 * in.half
        us == {j \in DOMAIN in.lam : w[j] > 0}
        i0 == CASE in.ikind = "one" -> S [] in.ikind = "const" -> 1000 * in.i0 [] in.ikind = "lam" -> FDiv(in.i0 * num, den, 3)
        (* interpolated spectrum at the reported peak *)
        seg == Max2(1, Min2(n - 1, ((out.peak + (in.half * 100000)) \div 100000) + 1))
        fr == (out.peak - (ix[seg] * 100000))
        itp(c) == (f[seg][c] \div m) + MulS((f[seg + 1][c] \div m) - (f[seg][c] \div m), fr)
        amp2 == Max2(Abs(itp(1)), Abs(itp(2)))
        (* noise curve, scale 8944, and signal to noise, for the scatter away from the peak *)
        nz == TLCEval([k \in 1..n |-> Max2(1, Root(va[k] * 800))])
        xs == TLCEval([k \in 1..n |-> RDiv(out.amp[k] * (se[k] \div 10), nz[k])])
        Scatter(k) == LET Z == Kept(n, k, (out.fc + 999) \div 1000) I == SetToSeq(IF 10 * Cardinality(Z) < 3 * n THEN 1..n ELSE Z)
                          m4 == (Mad4([j \in DOMAIN I |-> xs[I[j]]]) * 500) \div 1349
                      IN << ((m4 \div 10) * nz[k]) \div 1000, (20 * nz[k]) \div 10000 >>
        gsn == in.g * in.step * num
        rot(x) == LET ip == x \div 100000 fp == x % 100000
                  IN RDiv(((ip * (gsn % (720 * den))) % (720 * den)) * 250, den) + RDiv((fp \div 100) * gsn, 4 * den) + RDiv((fp % 100) * gsn, 400 * den)
    IN IF Len(out.fdf) # n THEN {"GridLength"} ELSE
       Broken([
         DepthGrid |-> \A k \in 1..n : Near(out.phi[k], 100 * ph[k], 1),
         AdjointSum |-> \A k \in 1..n : CNear(CScale(se[k], out.fdf[k]), f[k], t + (2 * m)),
         ReferenceLambda |-> Near(out.lam0, FDiv(num, den, 4), 4),
         ReferenceFrequency |-> Rel(out.lw0, FDiv(num, den, 4), 4, 300),
         StokesIAtReference |-> Rel(out.ifreq0, i0, 40, 1000),
         Weights |-> \A j \in DOMAIN in.lam : in.w[j] = NaN \/ Rel(out.wt[j], 1000 * in.w[j], 3, 500),
         ChannelsUsed |-> out.nch = Cardinality(us),
         FrequencyRange |-> LET a == MaxSeq([j \in DOMAIN in.lam |-> IF w[j] > 0 THEN in.lam[j] ELSE 0]) b == MinSeq([j \in DOMAIN in.lam |-> IF w[j] > 0 THEN in.lam[j] ELSE Big])
                            IN Rel(out.lwmax, 10000 * a, 5, 100) /\ Rel(out.lwmin, 10000 * b, 5, 100),
         MedianWidth |-> in.cols \in {5, 7} \/ Near(out.medw, 100000, 3),
         SpreadGrid |-> LET e == (n + 1) \div 2 IN Len(out.phi2) = n + (2 * e) /\ Len(out.rmsf) = n + (2 * e) /\ \A k \in 1..(n + (2 * e)) : Near(out.phi2[k], 100 * (ph[1] + ((k - 1 - e) * in.step)), 1),
         SpreadFunction |-> LET e == (n + 1) \div 2 at == {k \in 1..(n + (2 * e)) : k % 4 = 0} IN
             IF Len(out.rmsf) # n + (2 * e) THEN TRUE ELSE
             \E c \in cand : \A k \in at : LET d == ph[1] + ((k - 1 - e) * in.step) IN
                 (Abs(d) > in.half * in.step) \/ CNear(out.rmsf[k], AdjFDF(rt[k - e], rt[c], w, Ref(in.g, d, num, den)), 2 * in.rtol),
         PeakBySignalToNoise |-> \E k \in cand : Outside(k) \/ PeakFits(out.amp, ix, out.peak, out.pamp, k),
         NoiseAtPeak |-> \E k \in cand : Rel(MulS(out.damp2, MulS(se[k], se[k])), va[k], 40 + (2 * in.rtol) + VTol(in, w), 4000),
         SignalToNoise |-> out.peak = NaN \/ Near(out.snr, 1000, 2),
         DerotatedError |-> out.peak = NaN \/ Cardinality(us) < 3 \/ Rel(out.ratio2, RatioOver(in.lam, us, num, den), 30, 1000),
         BiasCorrection |-> out.peak = NaN \/ BiasFits(out.eff2, out.snr100, 500),
         RobustNoise |-> (\E k \in 1..n : va[k] < 300 \/ va[k] > 2600000 \/ se[k] < 2000) \/ (out.fc % 1000 < 4 \/ out.fc % 1000 > 996)
                          \/ (\E k \in cand : LET e == Scatter(k) IN Rel(out.mad, e[1], 40 + e[2] + in.rtol, 20000)),
         PeakIndex |-> out.peak = NaN \/ Abs(out.peak) > in.half * 100000 \/ Near(out.idx - (1000 * in.half), out.peak \div 100, 3),
         PeakErrors |-> out.peak = NaN \/ (Near(out.dphi, 1000, 2) /\ Near(out.dpa, 1000, 2)),
         FractionalPolarisation |-> out.peak = NaN \/ Near(out.fracpol, 1000, 2),
         Angle |-> out.peak = NaN \/ Abs(out.peak) > in.half * 100000 \/ amp2 < 2000
                   \/ (/\ Abs(MulS(itp(1), SinM(2 * out.pa)) - MulS(itp(2), CosM(2 * out.pa))) <= (2 * in.rtol) + 40 + (amp2 \div 300)
                       /\ MulS(itp(1), CosM(2 * out.pa)) + MulS(itp(2), SinM(2 * out.pa)) > 0),
         Derotated |-> out.peak = NaN \/ AngNear(out.pa0, out.pa - rot(out.peak), 30 + (RDiv(gsn, den) \div 50)),
         FilesAgree |-> out.files,
         InputsUnmodified |-> out.untouched ])
Verdict(ev) == CASE ev.op = "rot" -> RotEv(ev.in, ev.out)
                 [] ev.op = "adj" -> AdjEv(ev.in, ev.out)
                 [] ev.op = "pred" -> PredEv(ev.in, ev.out)
                 [] ev.op = "rmsf" -> RmsfEv(ev.in, ev.out)
                 [] ev.op = "run" -> RunEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
