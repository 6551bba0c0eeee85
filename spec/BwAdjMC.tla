------------------------------- MODULE BwAdjMC ------------------------------
(* Adjoint synthesis: channels are recorded one after the other (centre, half width,  *)
(* weight), then a unit source at one depth is observed and transformed at all depths. *)
EXTENDS BwDepol, Json, CSV, IOUtils
CONSTANTS NCh, G, Lams, Widths, Weights, Depths, Emit
VARIABLES lam, wid, wt, src, fdf, sens
vars == <<lam, wid, wt, src, fdf, sens>>
Q == 8
D(k) == k - 10
R(j, k) == Resp(G, D(k), lam[j], -wid[j], wid[j], Q)
Num == SumF(LAMBDA j : wt[j] * lam[j], Len(lam))
Den == SumSeq(wt)
Init == lam = <<>> /\ wid = <<>> /\ wt = <<>> /\ src = 0 /\ fdf = <<>> /\ sens = <<>>
Channel == /\ Len(lam) < NCh /\ src = 0
           /\ \E a \in Lams, b \in Widths, c \in Weights : (IF lam = <<>> THEN TRUE ELSE a > lam[Len(lam)]) /\ lam' = Append(lam, a) /\ wid' = Append(wid, b) /\ wt' = Append(wt, c)
           /\ UNCHANGED <<src, fdf, sens>>
Order == SetToSortSeq(Depths, <)
Observe == /\ Len(lam) = NCh /\ src = 0 /\ SumSeq(wt) > 0 /\ \E k \in Depths : src' = k
           /\ UNCHANGED <<lam, wid, wt, fdf, sens>>
Transform == /\ src # 0 /\ Len(fdf) < Len(Order)
             /\ LET k == Order[Len(fdf) + 1]
                    r == TLCEval([j \in 1..NCh |-> R(j, k)])
                IN /\ fdf' = Append(fdf, AdjFDF(r, [j \in 1..NCh |-> R(j, src)], wt, Ref(G, D(k), Num, Den)))
                   /\ sens' = Append(sens, Sens(r, wt))
             /\ UNCHANGED <<lam, wid, wt, src>>
Next == Channel \/ Observe \/ Transform
Spec == Init /\ [][Next]_vars /\ WF_vars(Observe \/ Transform)
---------------------------------------------------------------------------
At(k) == CHOOSE i \in DOMAIN Order : Order[i] = k
Done == src # 0 /\ Len(fdf) = Len(Order)
(* at the depth of the source the transform is the sensitivity, turned to the reference wavelength *)
SourceRecovered == Done => LET e == CScale(sens[At(src)], Ref(G, D(src), Num, Den))
                           IN Near(fdf[At(src)][1], e[1], 40) /\ Near(fdf[At(src)][2], e[2], 40)
(* Cauchy-Schwarz: nowhere more than the geometric mean of the sensitivities *)
Bounded == Done => \A i \in DOMAIN Order : Mod2(fdf[i]) <= MulS(sens[i], sens[At(src)]) + 120
SensAtMostOne == \A i \in DOMAIN sens : sens[i] <= S + 100 /\ sens[i] >= 0
DepthZeroUnhurt == \A i \in DOMAIN sens : D(Order[i]) = 0 => Near(sens[i], S, 2)
(* channels without width: ordinary synthesis *)
Ordinary == (Done /\ \A j \in 1..NCh : wid[j] = 0) => \A i \in DOMAIN Order :
    LET k == Order[i]
        h(j) == (Base(G, D(src) - D(k), lam[j])) + (IF Den = 0 THEN 0 ELSE 0)
        re == RDiv(SumF(LAMBDA j : wt[j] * CosM(h(j)), NCh), Den)
        im == RDiv(SumF(LAMBDA j : wt[j] * SinM(h(j)), NCh), Den)
        e == CMul(<<re, im>>, Ref(G, D(k), Num, Den))
    IN Near(fdf[i][1], e[1], 40) /\ Near(fdf[i][2], e[2], 40)
Finishes == <>(Done \/ src = 0)
EmitCase == (Emit /\ Done) => CSVWrite("%1$s", <<ToJson([g |-> G, lam |-> lam, wid |-> wid, w |-> wt, src |-> D(src), num |-> Num, den |-> Den])>>, IOEnv.CASES)
=============================================================================
