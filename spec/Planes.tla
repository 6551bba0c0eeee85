------------------------------- MODULE Planes -------------------------------
(* Interpolation between the planes of a cube.                                        *)
EXTENDS Fix
(* Stokes I at the reference wavelength, times 1000: linear in frequency between the enclosing channels *)
Below(fr, f0) == {j \in DOMAIN fr : fr[j] <= f0}
Above(fr, f0) == {j \in DOMAIN fr : fr[j] >= f0}
Lo(fr, f0) == IF Below(fr, f0) = {} THEN CHOOSE j \in DOMAIN fr : \A m \in DOMAIN fr : fr[j] <= fr[m]
              ELSE CHOOSE j \in Below(fr, f0) : \A m \in Below(fr, f0) : fr[m] <= fr[j]
Hi(fr, f0) == IF Above(fr, f0) = {} THEN CHOOSE j \in DOMAIN fr : \A m \in DOMAIN fr : fr[j] >= fr[m]
              ELSE CHOOSE j \in Above(fr, f0) : \A m \in Above(fr, f0) : fr[m] >= fr[j]
(* n/d times 10000, for 0 <= n <= d *)
Frac4(n, d) == LET t == n * 1000 IN ((t \div d) * 10) + RDiv((t % d) * 10, d)
I0At(fr, f0, spec) == LET a == Lo(fr, f0) b == Hi(fr, f0) IN
    IF a = b THEN 1000 * spec[a]
    ELSE 1000 * spec[a] + RDiv((spec[b] - spec[a]) * Frac4(f0 - fr[a], fr[b] - fr[a]), 10)
=============================================================================
