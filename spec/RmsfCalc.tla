------------------------------ MODULE RmsfCalc ------------------------------
(* The spread function of a sampling, as the RMSF calculator characterises it.        *)
(*                                                                                     *)
(* Channels: wavelength^2 lam (lattice units) and weight w.  Faraday depth k steps of  *)
(* the grid away from zero turns channel j by s*k*lam[j] half degrees (twice the       *)
(* angle).  Responses at scale 10^5; the modulus does not depend on the reference      *)
(* wavelength.                                                                         *)
EXTENDS Fix, Trig
Wt(w) == SumSeq(w)
Re(lam, w, s, k) == RDiv(SumF(LAMBDA j : w[j] * Cos(s * k * lam[j]), Len(lam)), Wt(w))
Im(lam, w, s, k) == RDiv(SumF(LAMBDA j : w[j] * Sin(s * k * lam[j]), Len(lam)), Wt(w))
(* squared modulus at scale 10^8 *)
Sq(lam, w, s, k) == LET a == Re(lam, w, s, k) b == Im(lam, w, s, k)
                    IN ((a \div 10) * (a \div 10)) + ((b \div 10) * (b \div 10))
(* modulus at scale 10^4 *)
Mod(lam, w, s, k) == RootIn(Sq(lam, w, s, k), 0, 20001)
(* sidelobes: local maxima of the moduli r at grid points 0..n, both neighbours known *)
Lobes(r) == {k \in 2..(Len(r) - 1) : r[k] > r[k - 1] /\ r[k] > r[k + 1]}     \* r[1] is the centre
(* as far as they can be told apart when moduli are known within e *)
MayBe(r, e) == {k \in 2..(Len(r) - 1) : r[k] >= r[k - 1] - e /\ r[k] >= r[k + 1] - e}
MustBe(r, e) == {k \in 2..(Len(r) - 1) : r[k] > r[k - 1] + e /\ r[k] > r[k + 1] + e}
=============================================================================
