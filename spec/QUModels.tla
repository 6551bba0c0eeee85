------------------------------ MODULE QUModels ------------------------------
(* Polarised emission along a line of sight, as QU-fitting models it.              *)
(*                                                                                  *)
(* A source is a sequence of components.  A component has fractional polarisation p *)
(* (1/1000), intrinsic angle psi (1/1000 degree), Faraday depth rm, Faraday         *)
(* thickness delta of a slab, internal dispersion sint, and external dispersion     *)
(* sext.  Depths are integers in a unit chosen so that 2 rm lambda^2 is              *)
(* g*rm*lam/1000 degrees when lambda^2 is lam lattice units.                         *)
(* Emission is complex, <<q, u>> at scale 10^5.                                      *)
EXTENDS StokesI, Trig
Comp(p, psi, rm, delta, sint, sext) == [p |-> p, psi |-> psi, rm |-> rm, delta |-> delta, sint |-> sint, sext |-> sext]

(* ---- elementary responses at scale 10^5 ---- *)
(* y in 10^-4: exp(-2 y^2) *)
Gauss2(y) == IF Abs(y) > 26000 THEN 0
             ELSE IF Abs(y) < 8000 THEN Pow10(-((((y * y) \div 1000) * 8686) \div 10000))
             ELSE Pow10(-((((y * y) \div 10000) * 8686) \div 1000))
(* angle in 1/1000 degree to 10^-5 radian *)
Rad5(m) == (m \div 1000) * 1745 + ((m \div 1000) * 329) \div 1000 + ((m % 1000) * 17453) \div 10000
CMul(a, b) == << MulS(a[1], b[1]) - MulS(a[2], b[2]), MulS(a[1], b[2]) + MulS(a[2], b[1]) >>
CScale(k, a) == << MulS(k, a[1]), MulS(k, a[2]) >>
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
One == <<S, 0>>
RotM(m) == << CosM(m), SinM(m) >>
(* (1 - exp(-s))/s for s = <<a, -b>>, a >= 0 (10^5 radians), bm = b in 1/1000 degree *)
CDiv(n, d) == LET k == 1 + (Abs(d[1]) + Abs(d[2])) \div 20000           \* keeps the products in range
                  x == d[1] \div k  y == d[2] \div k
                  q == ((x * x) + (y * y)) \div 10
                  u == n[1] \div 4  w == n[2] \div 4
              IN << ((FDiv((u * x) + (w * y), q, 5) * 2) \div 5) \div k, ((FDiv((w * x) - (u * y), q, 5) * 2) \div 5) \div k >>
Series(s) == LET t1 == CScale(-50000, s) s2 == CMul(s, s) s3 == CMul(s2, s) s4 == CMul(s2, s2) s5 == CMul(s4, s)
             IN CAdd(CAdd(CAdd(One, t1), CAdd(CScale(16667, s2), CScale(-4167, s3))), CAdd(CScale(833, s4), CScale(-139, s5)))
Internal(y, bm) ==
    LET a == IF Abs(y) > 400000 THEN Big ELSE IF Abs(y) > 46000 THEN ((y \div 10) * (y \div 10)) \div 5 ELSE (y * y) \div 500
        b == Rad5(bm)
        s == << a, -b >>
        e == CScale(Gauss2(y), RotM(bm))
    IN IF a + Abs(b) < 60000 THEN Series(s) ELSE CDiv(<< S - e[1], -e[2] >>, s)

(* ---- emission of one component and of a source ---- *)
HalfMdeg(g, d, lam) == (g * d * lam) \div 2                        \* d*lambda^2 in 1/1000 degree
Y4(g, s, lam) == Rad5(HalfMdeg(g, s, lam)) \div 10                 \* s*lambda^2 in 10^-4
CompAt(c, g, lam) ==
    LET th == (2 * c.psi) + (g * c.rm * lam)
        thin == RotM(th)
        body == IF c.delta = 0 /\ c.sint = 0 THEN thin
                ELSE CMul(thin, Internal(Y4(g, c.sint, lam), g * c.delta * lam))
        seen == IF c.sext = 0 THEN body ELSE CScale(Gauss2(Y4(g, c.sext, lam)), body)
    IN CScale(100 * c.p, seen)
Emission(src, g, lam) == FoldLeft(LAMBDA acc, c : CAdd(acc, CompAt(c, g, lam)), <<0, 0>>, src)
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)

(* ---- the built-in models: which parameters each one has and the source it describes ---- *)
Models == {1, 2, 3, 4, 5, 6, 7, 11, 12, 111}
SourceOf(m, v) ==
    CASE m = 1  -> << Comp(v.fracPol, v.psi0_deg, v.RM_radm2, 0, 0, 0) >>
      [] m = 2  -> << Comp(v.fracPol, v.psi0_deg, v.RM_radm2, 0, 0, v.sigmaRM_radm2) >>
      [] m = 3  -> << Comp(v.fracPol1, v.psi01_deg, v.RM1_radm2, 0, 0, v.sigmaRM_radm2), Comp(v.fracPol2, v.psi02_deg, v.RM2_radm2, 0, 0, v.sigmaRM_radm2) >>
      [] m = 4  -> << Comp(v.fracPol1, v.psi01_deg, v.RM1_radm2, 0, 0, v.sigmaRM1_radm2), Comp(v.fracPol2, v.psi02_deg, v.RM2_radm2, 0, 0, v.sigmaRM2_radm2) >>
      [] m = 5  -> << Comp(v.fracPol, v.psi0_deg, v.RM_radm2, v.deltaRM_radm2, 0, 0) >>
      [] m = 6  -> << Comp(v.fracPol1, v.psi01_deg, v.RM1_radm2, v.deltaRM1_radm2, 0, 0), Comp(v.fracPol2, v.psi02_deg, v.RM2_radm2, v.deltaRM2_radm2, 0, 0) >>
      [] m = 7  -> << Comp(v.fracPol, v.psi0_deg, v.RM_radm2, v.deltaRM_radm2, v.sigmaRM_radm2, 0) >>
      [] m = 11 -> << Comp(v.fracPol1, v.psi01_deg, v.RM1_radm2, 0, 0, 0), Comp(v.fracPol2, v.psi02_deg, v.RM2_radm2, 0, 0, 0) >>
      [] m = 12 -> << Comp(v.fracPol, v.psi0_deg, v.RM_screen, v.deltaRM_radm2, v.sigmaRM_radm2, v.sigmaRM_radm2_FG) >>
      [] m = 111 -> << Comp(v.fracPol1, v.psi01_deg, v.RM1_radm2, 0, 0, 0), Comp(v.fracPol2, v.psi02_deg, v.RM2_radm2, 0, 0, 0), Comp(v.fracPol3, v.psi03_deg, v.RM3_radm2, 0, 0, 0) >>
ParsOf == [m \in Models |->
    CASE m = 1  -> {"fracPol", "psi0_deg", "RM_radm2"}
      [] m = 2  -> {"fracPol", "psi0_deg", "RM_radm2", "sigmaRM_radm2"}
      [] m = 3  -> {"fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM_radm2"}
      [] m = 4  -> {"fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM1_radm2", "sigmaRM2_radm2"}
      [] m = 5  -> {"fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2"}
      [] m = 6  -> {"fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "deltaRM1_radm2", "deltaRM2_radm2"}
      [] m = 7  -> {"fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2", "sigmaRM_radm2"}
      [] m = 11 -> {"fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2"}
      [] m = 12 -> {"fracPol", "psi0_deg", "RM_screen", "deltaRM_radm2", "sigmaRM_radm2", "sigmaRM_radm2_FG"}
      [] m = 111 -> {"fracPol1", "fracPol2", "fracPol3", "psi01_deg", "psi02_deg", "psi03_deg", "RM1_radm2", "RM2_radm2", "RM3_radm2"}]
(* a model whose source has several components, in pairs: their depths are ordered and their polarisations share a total of one *)
NComp(m) == IF m \in {3, 4, 6, 11} THEN 2 ELSE IF m = 111 THEN 3 ELSE 1
=============================================================================
