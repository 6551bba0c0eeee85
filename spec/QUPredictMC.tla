----------------------------- MODULE QUPredictMC ----------------------------
(* Components are listed, predicted channel by channel, and synthesised back depth   *)
(* by depth on the orthogonal grid of the channels.                                  *)
EXTENDS QUPredict, Json, CSV, IOUtils
CONSTANTS N, G, MaxComp, Amps, Emit
(* N channels, N depths: G*N half degrees per channel and depth, G*N*N = 720 *)
VARIABLES comps, pr, pim, fdf, stage
vars == <<comps, pr, pim, fdf, stage>>
Lam == [j \in 1..N |-> 40 + j]
L0 == [num |-> SumSeq(Lam), den |-> N]
Depths == (-(N \div 2) + 1)..(N \div 2)
Init == comps = <<>> /\ pr = <<>> /\ pim = <<>> /\ fdf = <<>> /\ stage = "list"
AddC == /\ stage = "list" /\ Len(comps) < MaxComp
        /\ \E d \in Depths, a \in Amps, b \in Amps : comps' = Append(comps, [phi |-> d, re |-> a - 2, im |-> b - 2])
        /\ UNCHANGED <<pr, pim, fdf, stage>>
Seal == stage = "list" /\ comps # <<>> /\ stage' = "predict" /\ UNCHANGED <<comps, pr, pim, fdf>>
Predict == /\ stage = "predict" /\ Len(pr) < N
           /\ pr' = Append(pr, PredRe(comps, G, Lam[Len(pr) + 1], L0))
           /\ pim' = Append(pim, PredIm(comps, G, Lam[Len(pr) + 1], L0))
           /\ stage' = IF Len(pr) = N - 1 THEN "synth" ELSE "predict"
           /\ UNCHANGED <<comps, fdf>>
(* synthesis at scale TS/100: predictions brought down to whole hundredths *)
Synth == /\ stage = "synth" /\ Len(fdf) < N
         /\ LET d == Len(fdf) + 1 - (N \div 2)
                th(j) == Phase(G, d, Lam[j], L0)
            IN fdf' = Append(fdf, << RDiv(SumF(LAMBDA j : MulS(pr[j], Cos(th(j))) - MulS(pim[j], Sin(th(j))), N), N),
                                     RDiv(SumF(LAMBDA j : MulS(pr[j], Sin(th(j))) + MulS(pim[j], Cos(th(j))), N), N) >>)
         /\ stage' = IF Len(fdf) = N - 1 THEN "done" ELSE "synth"
         /\ UNCHANGED <<comps, pr, pim>>
Next == AddC \/ Seal \/ Predict \/ Synth
Spec == Init /\ [][Next]_vars /\ WF_vars(Predict \/ Synth \/ Seal)
---------------------------------------------------------------------------
DepthOf(k) == k - (N \div 2)
Inverts == stage = "done" => \A k \in 1..N : LET a == At(comps, DepthOf(k)) IN Near(fdf[k][1], a[1] * TS, 40) /\ Near(fdf[k][2], a[2] * TS, 40)
(* without turning (phi = 0) every channel sees the component as it is *)
DepthZeroIsFlat == (stage = "done" /\ \A c \in DOMAIN comps : comps[c].phi = 0) =>
                      \A j \in 1..N : pr[j] = At(comps, 0)[1] * TS /\ pim[j] = At(comps, 0)[2] * TS
(* prediction is linear in the components *)
Additive == \A j \in DOMAIN pr : pr[j] = SumF(LAMBDA c : PredRe(<<comps[c]>>, G, Lam[j], L0), Len(comps))
(* a single component is Faraday thin: constant polarised intensity *)
Thin == (stage = "done" /\ Len(comps) = 1) => \A j \in 1..N :
          LET a == pr[j] \div 1000 b == pim[j] \div 1000 IN Near((a * a) + (b * b), 10000 * ((comps[1].re * comps[1].re) + (comps[1].im * comps[1].im)), 1200)
Total == stage = "done" => Len(pr) = N /\ Len(fdf) = N
Finishes == <>(stage = "done" \/ stage = "list")
EmitCase == (Emit /\ stage = "done") => CSVWrite("%1$s", <<ToJson([g |-> G, lam |-> Lam, num |-> L0.num, den |-> L0.den, comps |-> comps])>>, IOEnv.CASES)
=============================================================================
