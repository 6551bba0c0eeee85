---------------------------- MODULE Synth1DTrace ----------------------------
(* Recorded runs of one-dimensional RM synthesis.                                 *)
(* in: lam, q, u (fractional, integers; NaN = flagged), w (relative weights, 0 = no  *)
(* usable noise), wscale, mode, grid (depth step and half length in lattice units),   *)
(* model of Stokes I.   out: fdf / Ifreq0 at 10^5, and so on.                          *)
EXTENDS Synth1D, MeasureFDF, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rel(a, b, tol, ppm) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000
SameC(o, re, im, tol) == Same(o[1], re, tol) /\ Same(o[2], im, tol)
Phis(in) == [k \in 1..(2 * in.half + 1) |-> (k - in.half - 1) * in.step]
Ext(n) == (n + 1) \div 2

(* Stokes I at the reference: in.ikind: "one", "const" (in.i0), "lam" (proportional to lambda^2: in.i0 * lam), *)
(* "linf" (supplied, in.i0 + in.i1 * f, f in units c/sqrt(unit) logged at 10^6 as out.f0)                        *)
ITrue(in, out, l0) == CASE in.ikind = "one" -> 100000
      [] in.ikind = "const" -> in.i0 * 1000
      [] in.ikind = "lam" -> IF in.super = 1 THEN -1 ELSE FDiv(in.i0 * l0.num, l0.den, 3)
      [] in.ikind = "linf" -> in.i0 * 1000 + (in.i1 * (out.f0 \div 10)) \div 100
IOk(in, out, l0) == LET t == ITrue(in, out, l0) IN t = -1 \/ Rel(out.ifreq0, t, 40, 400)

(* angle bookkeeping: phi*lambda0^2 in millidegrees for depth index x (10^-5 samples) *)
Rot(in, x, l0) == LET gsn == in.g * in.step * l0.num
                      ip == x \div 100000  fp == x % 100000
                  IN ((ip * (gsn % 720)) % 720) * 250 + ((fp \div 100) * gsn) \div 4 + ((fp % 100) * gsn) \div 400
AngNear(a, b, tol) == LET df == (a - b) % 180000 IN df <= tol \/ 180000 - df <= tol

(* peak: amplitudes scaled to 20000 at most, depths in samples *)
Idx(in) == [k \in 1..(2 * in.half + 1) |-> k - in.half - 1]
Peak(in, out, l0) == Broken([
      PeakOfThisFdf |-> PeakAgrees(out.amp, Idx(in), out.peak, out.pamp),
      Derotated |-> out.peak = NaN \/ AngNear(out.pa0, out.pa - Rot(in, out.peak, l0), 20 + (in.g * in.step * l0.num) \div 100),
      PeakErrors |-> out.peak = NaN \/ (Near(out.dphi, 1000, 2) /\ Near(out.dpa, 1000, 2) /\ Near(out.snr, 1000, 2)),
      DerotatedError |-> out.peak = NaN \/ Cardinality(UsedSet(in)) < 3 \/ Rel(out.ratio2, RatioOver(in.lam, UsedSet(in), l0.num, l0.den), 30, 1000),
      BiasCorrection |-> out.peak = NaN \/ BiasFits(out.eff2, out.snr100, 500),
      FractionalPolarisation |-> out.peak = NaN \/ Near(out.fracpol, 1000, 2) ])

(* the median of the values that are numbers, doubled *)
Med2(s) == LET t == SortSeq(SelectSeq(s, LAMBDA v : v # NaN), <) n == Len(t)
           IN IF n = 0 THEN NaN ELSE IF t[(n \div 2) + 1] = PInf THEN PInf   (* at least one of the middle values *)
              ELSE IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
Widths(f) == [j \in 1..(Len(f) - 1) |-> Abs(f[j + 1] - f[j])]
Pair(c) == Len(c[1]) = Len(c[2]) /\ \A k \in DOMAIN c[2] : Same(c[1][k], c[2][k], 3)
(* what the result says about the data and the Stokes I model *)
Record(in, r) == Broken([
      (* no claim when half of the errors are infinite *)
      ChannelNoise |-> LET m == Med2(r.d) IN IF m = NaN THEN r.dqu = m ELSE m = PInf \/ Near(2 * r.dqu, m, 8),
      ChannelWidth |-> Near(2 * r.cw, Med2(Widths(r.fr)), 8),
      ModelCoefficients |-> Pair(r.coef) /\ r.ord[1] = r.ord[2] /\ r.fn,
      ModelErrors |-> Pair(r.cerr) /\ Pair(r.chi) /\ r.stat[1] = r.stat[2],
      Complexity |-> \A k \in DOMAIN r.cplx : Pair(r.cplx[k]),
      UnitsKept |-> r.units ])

Run(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET we == UW(in)
        l0 == Ref1(in)
        ph == Phis(in)
        used == UsedSet(in)
        mk == [x \in {1} |-> [j \in DOMAIN in.lam |-> IF j \in used THEN 0 ELSE 1]]
        n == Len(ph)  e == Ext(n)
        sw == SumW(we)
        minL == MinSeq([j \in DOMAIN in.lam |-> IF j \in used THEN in.lam[j] ELSE Big])
        maxL == MaxSeq([j \in DOMAIN in.lam |-> IF j \in used THEN in.lam[j] ELSE 0])
    IN IF Len(out.phi) # n \/ Len(out.phi2) # n + 2 * e \/ Len(out.fdf) # n \/ Len(out.rmsf) # n + 2 * e THEN {"GridLength"} ELSE
       Broken([
         DepthGrid |-> \A k \in 1..n : Near(out.phi[k], 100 * ph[k], 1),
         RmsfGrid |-> \A k \in 1..(n + 2 * e) : Near(out.phi2[k], 100 * (ph[1] + (k - 1 - e) * in.step), 1),
         FaradaySum |-> \A k \in 1..n : SameC(out.fdf[k], FDFRe(we, in.lam, Q1(in), U1(in), 1, in.g, ph[k], l0),
                                                       FDFIm(we, in.lam, Q1(in), U1(in), 1, in.g, ph[k], l0), in.tol),
         RmsfSum |-> \A k \in 1..(n + 2 * e) : LET p == ph[1] + (k - 1 - e) * in.step IN
                       SameC(out.rmsf[k], RMSFRe(we, in.lam, mk, 1, in.g, p, l0), RMSFIm(we, in.lam, mk, 1, in.g, p, l0), in.tol),
         ReferenceLambda |-> Near(out.lam0, 100 * l0.num, 3 + l0.num \div 2000),
         ReferenceFrequency |-> in.super = 1 \/ Rel(out.lw0 , FDiv(l0.num, l0.den, 4), 3, 300),
         StokesIAtReference |-> IOk(in, out, l0),
         IntensityIsModel |-> in.ikind = "linf" \/ Rel(out.psum, out.ifreq0, 10, 100),
         Weights |-> \A j \in DOMAIN in.lam : (j \in used => Rel(out.wt[j], 1000 * in.w[j], 3, 500))
                                              /\ (in.w[j] = 0 => out.wt[j] = 0),
         (* variance of the FDF noise over Ifreq0^2, times 10^6 * wscale *)
         TheoreticalNoise |-> Rel(out.noise2, IF in.mode = "variance" THEN FDiv(1, sw, 6)
                                  ELSE FDiv(SumF(LAMBDA j : IF j \in used THEN in.nv[j] ELSE 0, Len(in.lam)), Cardinality(used) * Cardinality(used), 4), 3, 2000),
         ChannelCount |-> out.nch = Cardinality(used),
         FrequencyRange |-> Rel(out.lwmin, 10000 * minL, 3, 300) /\ Rel(out.lwmax, 10000 * maxL, 3, 300),
         Width |-> in.fitw = 1 \/ in.super = 1 \/ Near(out.fwhm, 3800, 2),
         InputsUnmodified |-> out.untouched])
       \cup Peak(in, out, l0) \cup Record(in, out.rec)

(* default grids: in.lam in the order given, ns samples per width *)
MaxStep(lam) == MaxSeq([j \in 1..(Len(lam) - 1) |-> Abs(lam[j + 1] - lam[j])])
Grid(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET R == MaxSeq(in.lam) - MinSeq(in.lam)
        d == MaxStep(in.lam)
        (* automatic half width of the grid in samples, *100; in.ns10 = 10*nSamples *)
        auto == Max2((1732 * R * in.ns10) \div (38 * d), 1000 * in.ns10) \div 10
        (* out.step: dPhi*R/3.8*1000 ; super: dPhi*(max+min)/2*1000 *)
        expstep == FDiv(10, in.ns10, 7)
        half100 == IF in.half100 > 0 THEN in.half100 ELSE auto
    IN Broken([
        OddLength |-> out.n % 2 = 1,
        ZeroCentred |-> out.mid = 0,
        Symmetric |-> out.sym,
        Uniform |-> out.unif,
        StepIsRequested |-> Rel(out.stp, IF in.dset = 1 THEN 10000000 ELSE expstep, 40, 300),
        RangeCovered |-> in.super = 1 \/ Abs(100 * ((out.n - 1) \div 2) - half100) <= 52 + half100 \div 500])

Judge(ev) == CASE ev.op = "run" -> Run(ev.in, ev.out)
               [] ev.op = "grid" -> Grid(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
