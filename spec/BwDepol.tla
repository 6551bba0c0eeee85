------------------------------- MODULE BwDepol -------------------------------
(* Channels of finite width.  A channel is centred on lambda^2 = lam lattice units;   *)
(* frequencies inside it are 1 + k/10^7 of the centre, k in [a, b].  The response to a *)
(* source at depth phi is the mean over frequency of exp(2 i phi lambda^2).           *)
(* Complex numbers are <<re, im>> at scale S.                                        *)
EXTENDS StokesI, Trig
CMul(x, y) == << MulS(x[1], y[1]) - MulS(x[2], y[2]), MulS(x[1], y[2]) + MulS(x[2], y[1]) >>
Conj(x) == << x[1], -x[2] >>
CScale(k, x) == << MulS(k, x[1]), MulS(k, x[2]) >>
Mod2(x) == MulS(x[1], x[1]) + MulS(x[2], x[2])
(* phase at the centre in 1/1000 degree *)
Base(g, phi, lam) == 500 * g * phi * lam
(* phase at frequency 1 + k/10^7 *)
PhaseAt(base, k) == LET s == IF base < 0 THEN -1 ELSE 1
                        one == FDiv(Abs(base), 10000000 + k, 7)
                    IN s * FDiv(one, 10000000 + k, 7)
(* composite Simpson rule with 2n panels, b - a divisible by 2n *)
Mean(base, a, b, n) ==
    LET h == (b - a) \div (2 * n)
        wt(i) == IF i = 0 \/ i = 2 * n THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
        re == SumF(LAMBDA i : wt(i - 1) * CosM(PhaseAt(base, a + (h * (i - 1)))), (2 * n) + 1)
        im == SumF(LAMBDA i : wt(i - 1) * SinM(PhaseAt(base, a + (h * (i - 1)))), (2 * n) + 1)
    IN << RDiv(re, 6 * n), RDiv(im, 6 * n) >>
Resp(g, phi, lam, a, b, n) == IF a = b THEN << CosM(PhaseAt(Base(g, phi, lam), a)), SinM(PhaseAt(Base(g, phi, lam), a)) >>
                              ELSE Mean(Base(g, phi, lam), a, b, n)
(* exp(2 i phi lambda0^2), lambda0^2 = num/den *)
Ref(g, phi, num, den) == LET h == RDiv((((g * phi) * num) % (720 * den)) * 500, den) IN << CosM(h), SinM(h) >>

(* ---- adjoint synthesis: R[j] responses at one depth, P[j] data at scale S, w weights ---- *)
SumC(f, n) == << SumF(LAMBDA j : f[j][1], n), SumF(LAMBDA j : f[j][2], n) >>
AdjFDF(R, P, w, ref) ==
    LET n == Len(w)
        t == [j \in 1..n |-> IF w[j] = 0 THEN <<0, 0>> ELSE LET c == CMul(P[j], Conj(R[j])) IN << w[j] * c[1], w[j] * c[2] >>]
        s == SumC(t, n)
        k == SumSeq(w)
    IN CMul(<< RDiv(s[1], k), RDiv(s[2], k) >>, ref)
Sens(R, w) == RDiv(SumF(LAMBDA j : w[j] * Mod2(R[j]), Len(w)), SumSeq(w))
(* variance over the squared unit, scale 10^5: wv[j] = (w sigma)^2 *)
Var(R, wv, w) == LET k == SumSeq(w) IN RDiv(SumF(LAMBDA j : RDiv(wv[j] * (Mod2(R[j]) \div 10), k), Len(w)) * 10, k)
=============================================================================
