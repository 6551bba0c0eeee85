------------------------------ MODULE RMSynth -------------------------------
(* RM synthesis of a set of pixels that share one list of channels.             *)
(*                                                                              *)
(* Units: channel wavelength^2 is lam[j] lattice units, Faraday depth is phi[k]  *)
(* lattice units; the product of one unit of each, times two, is g half degrees  *)
(* divided by the denominator of lambda0^2.  So with lambda0^2 = num/den the     *)
(* phase of channel j at depth k is -g * phi[k] * (lam[j]*den - num) half        *)
(* degrees: an integer for every weight vector.                                  *)
(*                                                                              *)
(* State machine (the order of the code's two passes): channels are recorded,    *)
(* the plane weights are settled (Weigh), then channels are summed one by one in *)
(* any order (Accumulate), then each pixel is normalised (Normalise).            *)
EXTENDS Fix, Trig

---------------------------------------------------------------------------
(* ---- the mathematical content, used by the machine and by the trace spec ---- *)

Flagged(q, u, p, j) == q[p][j] = NaN \/ u[p][j] = NaN
Live(q, u, j) == \E p \in DOMAIN q : ~Flagged(q, u, p, j)
(* effective plane weight: NaN counts as zero, a plane without any valid pixel as zero *)
WEff(w, q, u) == [j \in DOMAIN w |-> IF w[j] = NaN \/ ~Live(q, u, j) THEN 0 ELSE w[j]]
SumW(we) == SumSeq(we)
SumWL(we, lam) == SumF(LAMBDA j : we[j] * lam[j], Len(we))
(* reference lambda^2 as a fraction of lattice units *)
Lam0(we, lam) == IF SumW(we) = 0 THEN [num |-> 0, den |-> 1]
                 ELSE [num |-> SumWL(we, lam), den |-> SumW(we)]
Phase(g, phik, lamj, l0) == -(g * phik * (lamj * l0.den - l0.num))
(* weight of pixel p *)
KSum(we, q, u, p) == SumF(LAMBDA j : IF Flagged(q, u, p, j) THEN 0 ELSE we[j], Len(we))
(* numerators, scaled by TS *)
TermRe(we, q, u, p, j, th) == IF Flagged(q, u, p, j) THEN 0
                              ELSE we[j] * (q[p][j] * Cos(th) - u[p][j] * Sin(th))
TermIm(we, q, u, p, j, th) == IF Flagged(q, u, p, j) THEN 0
                              ELSE we[j] * (q[p][j] * Sin(th) + u[p][j] * Cos(th))
NumRe(we, lam, q, u, p, g, phik, l0) ==
    SumF(LAMBDA j : TermRe(we, q, u, p, j, Phase(g, phik, lam[j], l0)), Len(lam))
NumIm(we, lam, q, u, p, g, phik, l0) ==
    SumF(LAMBDA j : TermIm(we, q, u, p, j, Phase(g, phik, lam[j], l0)), Len(lam))
(* a pixel without usable non-zero data has no spectrum *)
Blank(we, q, u, p) == \A j \in DOMAIN we :
    we[j] = 0 \/ Flagged(q, u, p, j) \/ (q[p][j] = 0 /\ u[p][j] = 0)
FDFRe(we, lam, q, u, p, g, phik, l0) ==
    IF Blank(we, q, u, p) THEN NaN ELSE RDiv(NumRe(we, lam, q, u, p, g, phik, l0), KSum(we, q, u, p))
FDFIm(we, lam, q, u, p, g, phik, l0) ==
    IF Blank(we, q, u, p) THEN NaN ELSE RDiv(NumIm(we, lam, q, u, p, g, phik, l0), KSum(we, q, u, p))

(* ---- RMSF of pixel p: transform of the sampling, msk[p][j] = 1 if flagged ---- *)
MWEff(w, msk) == [j \in DOMAIN w |-> IF w[j] = NaN \/ (\A p \in DOMAIN msk : msk[p][j] = 1) THEN 0 ELSE w[j]]
MK(we, msk, p) == SumF(LAMBDA j : IF msk[p][j] = 1 THEN 0 ELSE we[j], Len(we))
RMSFRe(we, lam, msk, p, g, phik, l0) ==
    RDiv(SumF(LAMBDA j : IF msk[p][j] = 1 THEN 0 ELSE we[j] * Cos(Phase(g, phik, lam[j], l0)), Len(lam)), MK(we, msk, p))
RMSFIm(we, lam, msk, p, g, phik, l0) ==
    RDiv(SumF(LAMBDA j : IF msk[p][j] = 1 THEN 0 ELSE we[j] * Sin(Phase(g, phik, lam[j], l0)), Len(lam)), MK(we, msk, p))
=============================================================================
