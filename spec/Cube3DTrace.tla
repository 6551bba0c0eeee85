---------------------------- MODULE Cube3DTrace -----------------------------
(* Recorded runs of the cube tools: synthesis.                                        *)
EXTENDS Synth3D, MeasureFDF, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
FdfScaled(x, i0) == IF x = NaN \/ i0 = NaN THEN NaN ELSE RDiv(RDiv(x, 10) * i0, 1000)
StokesIs(img, v) == ~HasAxis(img, "s") \/ LET a == img.ax[AxisOf(img, "s")] IN World(a, 1) = v
Synth(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET q == Spectra(in, in.q)
        u == Spectra(in, in.u)
        fi == IF in.hasi THEN Spectra(in, in.i) ELSE <<>>
        we == WEff(in.w, q, u)
        l0 == Lam0(we, in.lam)
        ph == Depths(in)
        ph2 == Depths2(in)
        msk == MaskOf(q, u)
        i0 == [p \in DOMAIN q |-> IF ~in.hasi THEN 1000 ELSE IF \E j \in DOMAIN fi[p] : fi[p][j] = NaN THEN NaN ELSE I0At(in.fr, in.f0, fi[p])]
        imgs == <<out.re, out.im, out.tot>>
        rimgs == IF in.rmsf THEN <<out.rre, out.rim, out.rtot>> ELSE <<>>
        tol(p) == 3 + in.tol * (IF i0[p] = NaN THEN 0 ELSE 1 + Abs(i0[p]) \div 1000)
    IN IF \E n \in DOMAIN imgs : ~WellFormed(imgs[n]) \/ ~KeptAxes(in.q, imgs[n], "p") \/ LenOf(imgs[n], "p") # Len(ph) THEN {"Axes"} ELSE
       IF \E n \in DOMAIN rimgs : ~WellFormed(rimgs[n]) \/ ~KeptAxes(in.q, rimgs[n], "p") \/ LenOf(rimgs[n], "p") # Len(ph2) THEN {"RmsfAxes"} ELSE
       Broken([
         BlankPixels |-> \A p \in DOMAIN q, k \in DOMAIN ph : (Plane(out.re, in, k, p) = NaN \/ Plane(out.im, in, k, p) = NaN)
                            <=> (Blank(we, q, u, p) \/ i0[p] = NaN),
         FdfPixels |-> \A p \in DOMAIN q, k \in DOMAIN ph :
               /\ Same(Plane(out.re, in, k, p), FdfScaled(FDFRe(we, in.lam, q, u, p, in.g, ph[k], l0), i0[p]), tol(p))
               /\ Same(Plane(out.im, in, k, p), FdfScaled(FDFIm(we, in.lam, q, u, p, in.g, ph[k], l0), i0[p]), tol(p)),
         FdfTotal |-> \A p \in DOMAIN q, k \in DOMAIN ph : Plane(out.tot, in, k, p) # NaN =>
               LET a == Plane(out.re, in, k, p) \div 100 b == Plane(out.im, in, k, p) \div 100 c == Plane(out.tot, in, k, p) \div 100
               IN Abs((a * a) + (b * b) - (c * c)) <= 6 * (c + 2),
         DepthCoordinates |-> \A n \in DOMAIN imgs : DepthAxis(imgs[n], ph),
         SkyCoordinates |-> \A n \in DOMAIN imgs : SameSky(in.q, imgs[n]),
         StokesAxis |-> StokesIs(out.re, 2) /\ StokesIs(out.im, 3) /\ StokesIs(out.tot, 0),
         ReferenceLambda |-> \A n \in DOMAIN out.lam0 : IF SumW(we) = 0 THEN out.lam0[n] = 0 ELSE Near(out.lam0[n], 100 * l0.num, in.l0tol),
         RmsfPixels |-> in.rmsf => \A p \in DOMAIN q : MK(we, msk, p) > 0 => \A k \in DOMAIN ph2 :
               /\ Same(Plane(out.rre, in, k, p), RMSFRe(we, in.lam, msk, p, in.g, ph2[k], l0), in.rtol)
               /\ Same(Plane(out.rim, in, k, p), RMSFIm(we, in.lam, msk, p, in.g, ph2[k], l0), in.rtol),
         RmsfTotal |-> in.rmsf => \A p \in DOMAIN q, k \in DOMAIN ph2 : Plane(out.rtot, in, k, p) # NaN =>
               LET a == Plane(out.rre, in, k, p) \div 100 b == Plane(out.rim, in, k, p) \div 100 c == Plane(out.rtot, in, k, p) \div 100
               IN Abs((a * a) + (b * b) - (c * c)) <= 6 * (c + 2),
         RmsfCoordinates |-> \A n \in DOMAIN rimgs : DepthAxis(rimgs[n], ph2) /\ SameSky(in.q, rimgs[n]),
         Units |-> UnitsAre(out.units, in, TRUE),
         WidthMap |-> in.rmsf => (MapOf(out.fwhm, in) /\ (~in.fit => \A p \in DOMAIN q : Near(At2(out.fwhm, in, p), 3800, 2))),
         PeakMaps |-> /\ MapOf(out.maxpi, in) /\ MapOf(out.peakrm, in)
                      /\ \A p \in DOMAIN q :
                           IF Plane(out.tot, in, 1, p) = NaN THEN At2(out.maxpi, in, p) = NaN /\ At2(out.peakrm, in, p) = NaN
                           ELSE LET top == MaxSeq([k \in DOMAIN ph |-> Plane(out.tot, in, k, p)])
                                IN /\ Near(At2(out.maxpi, in, p), top, 1)
                                   /\ \E k \in DOMAIN ph : Plane(out.tot, in, k, p) >= top - 1 /\ Near(At2(out.peakrm, in, p), 100 * ph[k], 2) ])
(* products whose grids the tool chose *)
Files(in) == (IF in.api = 2 THEN {} ELSE IF in.multi THEN {"FDF_dirty.fits"} ELSE {"FDF_real_dirty.fits", "FDF_im_dirty.fits", "FDF_tot_dirty.fits"})
             \cup (IF ~in.rmsf THEN {} ELSE IF in.multi THEN {"RMSF.fits"} ELSE {"RMSF_real.fits", "RMSF_im.fits", "RMSF_tot.fits", "RMSF_FWHM.fits"})
             \cup (IF in.api = 0 THEN {"FDF_maxPI.fits", "FDF_peakRM.fits"} ELSE {})
Total(re, im, tot, in, p, k) == Plane(tot, in, k, p) # NaN =>
               LET a == Plane(re, in, k, p) \div 100 b == Plane(im, in, k, p) \div 100 c == Plane(tot, in, k, p) \div 100
               IN Abs((a * a) + (b * b) - (c * c)) <= 6 * (c + 2)
(* the depth axis: sample k of m lies (k - middle) steps from zero *)
AutoAxis(img, in, h) == LET a == img.ax[AxisOf(img, "p")]
                            st == IF in.dset = 1 THEN 100 * in.step ELSE FDiv(10000 * WNum(in), WDen(in) * in.ns10, 1)
                        IN \A k \in 1..a.n : Abs(World(a, k) - (((k - h) - 1) * st)) <= 2 + Abs((k - h) - 1)
Auto(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF {out.files[i] : i \in DOMAIN out.files} # Files(in) THEN {"Products"} ELSE
    LET q == Spectra(in, in.q)
        u == Spectra(in, in.u)
        fi == IF in.hasi THEN Spectra(in, in.i) ELSE <<>>
        we == WEff(in.w, q, u)
        l0 == Ref3(in, we)
        msk == MaskOf(q, u)
        i0 == [p \in DOMAIN q |-> IF ~in.hasi THEN 1000 ELSE IF \E j \in DOMAIN fi[p] : fi[p][j] = NaN THEN NaN ELSE I0At(in.fr, in.f0, fi[p])]
        imgs == IF in.api = 2 THEN <<>> ELSE <<out.re, out.im, out.tot>>
        rimgs == IF in.rmsf THEN <<out.rre, out.rim, out.rtot>> ELSE <<>>
        tol(p) == 3 + (in.tol * (IF i0[p] = NaN THEN 0 ELSE 1 + Abs(i0[p]) \div 1000))
        n == IF in.api = 2 THEN 0 ELSE LenOf(out.re, "p")
        n2 == IF in.rmsf THEN LenOf(out.rre, "p") ELSE 0
        h == IF in.api = 2 THEN CHOOSE x \in 0..n2 : (2 * x) + 1 + (2 * (x + 1)) = n2 ELSE (n - 1) \div 2
        h2 == (n2 - 1) \div 2
    IN IF \/ \E i \in DOMAIN imgs : ~WellFormed(imgs[i]) \/ ~KeptAxes(in.q, imgs[i], "p") \/ LenOf(imgs[i], "p") # (2 * h) + 1
          \/ \E i \in DOMAIN rimgs : ~WellFormed(rimgs[i]) \/ ~KeptAxes(in.q, rimgs[i], "p") \/ LenOf(rimgs[i], "p") # (2 * h) + 1 + (2 * (h + 1)) THEN {"Axes"} ELSE
       LET cs == TLCEval([k \in 1..n |-> [j \in DOMAIN we |-> CosM(-Ang(in, (k - h) - 1, j, l0))]])
           sn == TLCEval([k \in 1..n |-> [j \in DOMAIN we |-> SinM(-Ang(in, (k - h) - 1, j, l0))]])
           cs2 == TLCEval([k \in 1..n2 |-> [j \in DOMAIN we |-> CosM(-Ang(in, (k - h2) - 1, j, l0))]])
           sn2 == TLCEval([k \in 1..n2 |-> [j \in DOMAIN we |-> SinM(-Ang(in, (k - h2) - 1, j, l0))]])
       IN Broken([
         RangeCovered |-> Abs((100 * h) - Half100(in)) <= 52 + (Half100(in) \div 500),
         DepthCoordinates |-> (\A i \in DOMAIN imgs : AutoAxis(imgs[i], in, h)) /\ \A i \in DOMAIN rimgs : AutoAxis(rimgs[i], in, h2),
         SkyCoordinates |-> (\A i \in DOMAIN imgs : SameSky(in.q, imgs[i])) /\ \A i \in DOMAIN rimgs : SameSky(in.q, rimgs[i]),
         ReferenceLambda |-> \A i \in DOMAIN out.lam0 : IF SumW(we) = 0 THEN out.lam0[i] = 0 ELSE Near(out.lam0[i], 100 * l0.num, in.l0tol),
         FdfPixels |-> \A p \in DOMAIN q, k \in 1..n :
               /\ Same(Plane(out.re, in, k, p), FdfScaled(SumRe(we, q, u, p, cs[k], sn[k]), i0[p]), tol(p))
               /\ Same(Plane(out.im, in, k, p), FdfScaled(SumIm(we, q, u, p, cs[k], sn[k]), i0[p]), tol(p)),
         FdfTotal |-> \A p \in DOMAIN q, k \in 1..n : Total(out.re, out.im, out.tot, in, p, k),
         RmsfPixels |-> \A p \in DOMAIN q : MK(we, msk, p) > 0 => \A k \in 1..n2 :
               /\ Same(Plane(out.rre, in, k, p), RespRe(we, msk, p, cs2[k]), in.rtol)
               /\ Same(Plane(out.rim, in, k, p), RespRe(we, msk, p, sn2[k]), in.rtol),
         RmsfTotal |-> \A p \in DOMAIN q, k \in 1..n2 : Total(out.rre, out.rim, out.rtot, in, p, k),
         WidthMap |-> in.rmsf => (MapOf(out.fwhm, in) /\ \A p \in DOMAIN q : (MK(we, msk, p) > 0 /\ out.own[p] # NaN) => Near(At2(out.fwhm, in, p), out.own[p], 2 + (out.own[p] \div 300))),
         PeakMaps |-> in.api = 0 =>
             (/\ MapOf(out.maxpi, in) /\ MapOf(out.peakrm, in)
              /\ \A p \in DOMAIN q :
                   IF Plane(out.tot, in, 1, p) = NaN THEN At2(out.maxpi, in, p) = NaN /\ At2(out.peakrm, in, p) = NaN
                   ELSE LET top == MaxSeq([k \in 1..n |-> Plane(out.tot, in, k, p)])
                            st == IF in.dset = 1 THEN 100 * in.step ELSE FDiv(10000 * WNum(in), WDen(in) * in.ns10, 1)
                        IN /\ Near(At2(out.maxpi, in, p), top, 1)
                           /\ \E k \in 1..n : Plane(out.tot, in, k, p) >= top - 1 /\ Near(At2(out.peakrm, in, p), ((k - h) - 1) * st, 2 + Abs(k - h))) ])
Judge(ev) == CASE ev.op = "synth3" -> Synth(ev.in, ev.out)
               [] ev.op = "auto3" -> Auto(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
