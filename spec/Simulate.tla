------------------------------ MODULE Simulate ------------------------------
(* Simulated observations of catalogued sources.                                     *)
(*                                                                                    *)
(* A source has a kind ("burn": components seen side by side, each behind a           *)
(* dispersing screen; "stack": emitting and rotating layers along the line of sight,  *)
(* background first), a spectral index (1/10) and components: polarised fraction p    *)
(* (1/1000), intrinsic angle psi (1/1000 degree), Faraday depth rm and Faraday        *)
(* dispersion sig (rad/m^2).  Frequencies are in MHz.                                 *)
EXTENDS QUModels, Robust
Part(p, psi, rm, sig) == [p |-> p, psi |-> psi, rm |-> rm, sig |-> sig]
(* twice the rotation of one rad/m^2, in 10^-6 degree *)
Turn(f) == FDiv(1029897571, f * f, 4)
Th(rm, f) == LET d == Turn(f) IN (rm * (d \div 1000)) + (rm * (d % 1000)) \div 1000
(* lambda^2 in 10^-8 m^2 *)
LamSq(f) == FDiv(898755179, f * f, 4)
BurnPart(c, f) == CScale(100 * c.p, CScale(Gauss2((c.sig * (LamSq(f) \div 100)) \div 100), RotM((2 * c.psi) + Th(c.rm, f))))
Fore(cs, i) == SumF(LAMBDA j : IF j > i THEN cs[j].rm ELSE 0, Len(cs))
Layer(cs, i, f) == CScale(100 * cs[i].p, CMul(RotM((2 * cs[i].psi) + Th(Fore(cs, i), f)), Internal(0, Th(cs[i].rm, f))))
Pol(kind, cs, f) == FoldLeft(CAdd, <<0, 0>>, [i \in DOMAIN cs |-> IF kind = "burn" THEN BurnPart(cs[i], f) ELSE Layer(cs, i, f)])
(* Stokes I relative to the catalogued flux *)
Flux(si, f, f0) == Pow10((si * (Lg(f) - Lg(f0))) \div 10)
(* beam: full widths w1 along u, w2 along v (1/100 pixel), position angle pa (half degrees) from the second sky axis towards *)
(* the first; dx, dy in 1/100 pixel; response at scale 10^5 *)
Beam(dx, dy, w1, w2, pa) ==
    LET r(a, b) == RDiv((dx * (a \div 10)) + (dy * (b \div 10)), 1000)          \* 1/1000 pixel
        u == r(Cos(pa), -Sin(pa))
        v == r(Sin(pa), Cos(pa))
        x == (u * 1000) \div w1  y == (v * 1000) \div w2                        \* 10^-4 of a width
    IN IF Abs(x) > 30000 \/ Abs(y) > 30000 THEN 0 ELSE Pow10(-((((x * x) + (y * y)) \div 10000) * 12041) \div 1000)
=============================================================================
