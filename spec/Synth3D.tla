------------------------------ MODULE Synth3D -------------------------------
(* Synthesis of a cube: what each sky pixel of the output files must hold, in terms   *)
(* of the same pixel of the input files (Cube) and the Faraday sum (RMSynth).          *)
(*   in.q, in.u  fractional Stokes cubes (axis "f" is frequency), NaN = flagged          *)
(*   in.i        Stokes I model cube, or absent; in.fr channel frequencies, in.f0 that of  *)
(*               the reference wavelength (same units)                                    *)
(*   in.h, in.step  depth grid step*(-h..h) lattice units                                *)
EXTENDS RMSynth, Cube, Planes
NX(in) == LenOf(in.q, "x")
NY(in) == LenOf(in.q, "y")
NPix(in) == NX(in) * NY(in)
PX(in, p) == ((p - 1) % NX(in)) + 1
PY(in, p) == ((p - 1) \div NX(in)) + 1
Spectra(in, img) == [p \in 1..NPix(in) |-> [j \in 1..LenOf(img, "f") |-> Vox(img, PX(in, p), PY(in, p), j, "f")]]
Depths(in) == [k \in 1..(2 * in.h + 1) |-> in.step * ((k - in.h) - 1)]
(* the doubled grid of the RMSF: half the length, rounded up, at either end *)
Depths2(in) == LET n == 2 * in.h + 1 e == (n + 1) \div 2 IN [k \in 1..(n + 2 * e) |-> in.step * ((k - in.h - e) - 1)]
(* flags of Q, U and the model flag the voxel for everything *)
MaskOf(q, u) == [p \in DOMAIN q |-> [j \in DOMAIN q[p] |-> IF Flagged(q, u, p, j) THEN 1 ELSE 0]]
(* the depth axis of an output reproduces the depth of each plane (lattice units times 100) *)
DepthAxis(img, ph) == LET a == img.ax[AxisOf(img, "p")] IN
    a.n = Len(ph) /\ \A k \in DOMAIN ph : Abs(World(a, k) - 100 * ph[k]) <= 2
KeptAxes(a, b, t) == Len(a.ax) = Len(b.ax) /\ \A i \in DOMAIN a.ax :
    IF a.ax[i].t = "f" THEN b.ax[i].t = t ELSE b.ax[i].t = a.ax[i].t /\ b.ax[i].n = a.ax[i].n
Plane(img, in, k, p) == Vox(img, PX(in, p), PY(in, p), k, "p")
(* a map: two sky axes of the same sky, anything else of length one *)
MapOf(img, in) == WellFormed(img) /\ SameSky(in.q, img) /\ Size(img.ax) = NPix(in)
At2(img, in, p) == Vox(img, PX(in, p), PY(in, p), 1, "none")
(* ---- grids left to the tool ----                                                     *)
(* n*k/d for 0 <= n < d < 4*10^5, k < 10^7, without leaving 32 bits *)
MulDiv(n, k, d) == LET k1 == k \div 1000 IN (1000 * ((n * k1) \div d)) + ((((n * k1) % d) * 1000) + (n * (k % 1000))) \div d
MaxStep(lam) == MaxSeq([j \in 1..(Len(lam) - 1) |-> Abs(lam[j + 1] - lam[j])])
(* theoretical width of the response times its denominator: 3.8 / range, or 2 / sum with super-resolution (in tenths) *)
WDen(in) == IF in.super = 1 THEN MaxSeq(in.lam) + MinSeq(in.lam) ELSE MaxSeq(in.lam) - MinSeq(in.lam)
WNum(in) == IF in.super = 1 THEN 20 ELSE 38
(* the extent: at least ten widths, and sqrt(3) over the widest channel step; half the number of samples, times 100 *)
Half100(in) ==
    LET d == MaxStep(in.lam) IN
    IF in.lset > 0 THEN (100 * in.lset) + (10 * in.frac)
    ELSE IF in.dset = 1 THEN (Max2(FDiv(17321, d, 1), FDiv(1000 * WNum(in), WDen(in), 2)) * 229) \div (1000 * (in.step * in.g * in.den))
    ELSE ((Max2((173205 * WDen(in)) \div (WNum(in) * d), 100000) \div 10) * in.ns10) \div 100
(* twice depth times wavelength squared from the reference, millidegrees, at sample k from the middle *)
Ang(in, k, j, l0) ==
    LET x == k * ((in.lam[j] * l0.den) - l0.num) IN
    IF in.dset = 1 THEN ((in.g * in.step * x) % 720) * 500
    ELSE LET b == l0.den * in.ns10 * WDen(in)
             K == IF in.super = 1 THEN 2291831 ELSE 4354479
         IN (((x \div b) * K) % 360000) + MulDiv(x % b, K, b)
(* reference wavelength: zero with super-resolution *)
Ref3(in, we) == IF in.super = 1 THEN [num |-> 0, den |-> in.den] ELSE Lam0(we, in.lam)
SumRe(we, q, u, p, c, s) == IF Blank(we, q, u, p) THEN NaN
    ELSE RDiv(SumF(LAMBDA j : IF Flagged(q, u, p, j) THEN 0 ELSE we[j] * ((q[p][j] * c[j]) - (u[p][j] * s[j])), Len(we)), KSum(we, q, u, p))
SumIm(we, q, u, p, c, s) == IF Blank(we, q, u, p) THEN NaN
    ELSE RDiv(SumF(LAMBDA j : IF Flagged(q, u, p, j) THEN 0 ELSE we[j] * ((q[p][j] * s[j]) + (u[p][j] * c[j])), Len(we)), KSum(we, q, u, p))
RespRe(we, msk, p, c) == RDiv(SumF(LAMBDA j : IF msk[p][j] = 1 THEN 0 ELSE we[j] * c[j], Len(we)), MK(we, msk, p))
(* units of the products *)
UnitsAre(u, in, peaks) == LET b == IF in.bunit = 1 THEN "Jy/beam" ELSE "" IN
    /\ \A i \in DOMAIN u.fdf : u.fdf[i] = (IF in.bunit = 1 THEN b \o "/RMSF" ELSE "")
    /\ \A i \in DOMAIN u.rmsf : u.rmsf[i] = ""
    /\ (in.rmsf => u.fwhm = "rad/m^2")
    /\ (peaks => u.maxpi = b /\ u.peakrm = "rad/m^2")
=============================================================================
