------------------------------ MODULE PeakRules -----------------------------
(* The rules a peak measurement obeys.                                            *)
(* in: fdf, amp, phi, f10 (width times 10), noise10 (noise times 10, 0 = not given), lam, l0, *)
(*     d (degrees of rotation per unit depth at the reference wavelength),         *)
(*     thr10 (threshold times 10).   out: depths *1000, amplitudes *1000, angles *1000.  *)
EXTENDS MeasureFDF
Mod180(x) == x % 180000
AngNear(a, b, tol) == LET df == Mod180(a - b) IN df <= tol \/ 180000 - df <= tol
RelNear(a, b, tol) == IsNum(a) /\ Abs(a - b) <= tol + Abs(b) \div 2000

(* MAD/0.6745 in thousandths *)
MadSigma(in, i) == (NoiseMad4(in.fdf, i, FwhmChan(in.f10, in.phi[2] - in.phi[1])) * 500000) \div 1349

(* clauses if i is the measured peak *)
With(in, out, i) ==
    LET flat == Flat(in.amp, in.phi, i)
        vp == VertexPhi(in.amp, in.phi, i)
        va == VertexAmp(in.amp, in.phi, i)
        nan == OutOfRange(in.amp, in.phi, i)
        edge == Abs(Abs(vp) - 1000 * MaxAbsPhi(in.phi)) <= 2
        inside == vp >= 1000 * in.phi[1] /\ vp <= 1000 * in.phi[Len(in.phi)]
        sig == IF in.noise10 > 0 THEN 100 * in.noise10 ELSE MadSigma(in, i)
        re == Interp(in.fdf, in.phi, vp, 1)
        im == Interp(in.fdf, in.phi, vp, 2)
        a2 == 2 * out.pa
        cross == re * (SinM(a2) \div 10) - im * (CosM(a2) \div 10)
        dot == re * (CosM(a2) \div 10) + im * (SinM(a2) \div 10)
        j == Seg(in.phi, vp)
        slope == Abs(in.fdf[j + 1][1] - in.fdf[j][1]) + Abs(in.fdf[j + 1][2] - in.fdf[j][2])
        strong == Abs(re) + Abs(im) >= 300 + slope
    IN IF flat \/ edge THEN {} ELSE
       IF nan THEN Broken([OutOfRangeIsNaN |-> out.phi = NaN /\ out.amp = NaN /\ out.pa = NaN /\ out.pa0 = NaN]) ELSE
       Broken([
         PeakDepth |-> Near(out.phi, vp, 2 + Abs(vp) \div 200000),
         PeakAmplitude |-> Near(out.amp, va, 2 + Abs(va) \div 100000),
         MadNoise |-> RelNear(out.mad, MadSigma(in, i), 2),
         NoiseUsed |-> RelNear(out.noise, sig, 2),
         (* S/N, logged as S/N * noise / amplitude *)
         SignalToNoise |-> va <= 0 \/ sig = 0 \/ Near(out.snr, 1000, 2),
         DepthError |-> va <= 0 \/ sig = 0 \/ RelNear(out.dphi2, (sig * in.f10) \div 10, 20),
         AngleRange |-> ~inside \/ (out.pa >= 0 /\ out.pa < 180001 /\ out.pa0 >= 0 /\ out.pa0 < 180001),
         Angle |-> ~inside \/ ~strong \/ (Abs(cross) <= 200000 + (Abs(re) + Abs(im)) * 3 + 2000 * slope /\ dot > 0),
         AngleError |-> va <= 0 \/ sig = 0 \/ RelNear(out.dpa2, sig, 20),
         Derotation |-> ~inside \/ AngNear(out.pa0, out.pa - (vp * in.d), 3 * Max2(1, Abs(in.d)) + 2),
         DerotatedError |-> va <= 0 \/ sig = 0 \/ RelNear(out.ratio2, RatioSq(in.lam, in.l0), 30),
         BiasCorrection |->
              IF sig = 0 \/ va <= 0 THEN TRUE ELSE
              LET exact == in.noise10 > 0 /\ in.amp[i - 1] = in.amp[i + 1]
                  lhs == va \div 10 rhs == (sig \div 100) * in.thr10         \* va/10 >= thr*sig/10
                  snr100 == FDiv(va, sig, 2)
                  bt == 60 + ((snr100 \div 100) * (snr100 \div 100)) \div 400    (* maps are in single precision *)
              IN IF exact THEN (IF 100 * in.amp[i] >= in.noise10 * in.thr10 THEN Near(out.eff2, 23000, bt) ELSE out.eff2 = 0)
                 ELSE IF snr100 >= 10 * in.thr10 + 2 THEN Near(out.eff2, 23000, bt)
                 ELSE IF snr100 <= 10 * in.thr10 - 3 THEN out.eff2 = 0 ELSE TRUE,
         PeakIndex |-> ~inside \/ Near(out.idx, FDiv(vp - 1000 * in.phi[1], in.phi[2] - in.phi[1], 0), 3) ])

(* the clauses broken, whichever of several equal samples was measured *)
PeakBroken(in, out) ==
    LET alts == [i \in Peaks(in.amp) |-> With(in, out, i)]
    IN IF \E i \in Peaks(in.amp) : alts[i] = {} THEN {} ELSE alts[CHOOSE i \in Peaks(in.amp) : TRUE]
=============================================================================
