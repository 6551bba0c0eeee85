----------------------------- MODULE RmsfCalcMC -----------------------------
(* Channels are laid down one by one, with their weights; then the spread function is       *)
(* scanned outwards from its centre, keeping the strongest local maximum met.                *)
EXTENDS RmsfCalc, Json, CSV, IOUtils
CONSTANTS Lams, Weights, MaxChan, Step, NGrid, Emit
VARIABLES lam, w, r, best
vars == <<lam, w, r, best>>
Init == lam = <<>> /\ w = <<>> /\ r = <<>> /\ best = 0
Lay == /\ r = <<>> /\ Len(lam) < MaxChan
       /\ \E x \in Lams, v \in Weights : (IF lam = <<>> THEN TRUE ELSE x > lam[Len(lam)]) /\ lam' = Append(lam, x) /\ w' = Append(w, v)
       /\ UNCHANGED <<r, best>>
Scan == /\ Len(lam) >= 2 /\ Wt(w) > 0 /\ Len(r) <= NGrid
        /\ r' = Append(r, Mod(lam, w, Step, Len(r)))
        /\ LET n == Len(r') k == n - 1
           IN best' = IF k < 2 THEN best ELSE IF r'[k] > r'[k - 1] /\ r'[k] > r'[n] THEN (IF best = 0 THEN k ELSE IF r'[k] > r'[best] THEN k ELSE best) ELSE best
        /\ UNCHANGED <<lam, w>>
Next == Lay \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan)
---------------------------------------------------------------------------
Peak == r # <<>> => Near(r[1], 10000, 2) /\ \A k \in DOMAIN r : r[k] <= 10003
Strongest == (r # <<>>) => LET L == Lobes(r) IN IF L = {} THEN best = 0 ELSE best \in L /\ \A k \in L : r[k] <= r[best]
(* shifting every channel, scaling every weight, or reversing the order does not change it *)
Shifted == Len(r) = NGrid => \A k \in {1, NGrid - 1} : Near(Mod([j \in DOMAIN lam |-> lam[j] + 17], w, Step, k), r[k + 1], 12)
Scaled == Len(r) = NGrid => \A k \in {1, NGrid - 1} : Near(Mod(lam, [j \in DOMAIN w |-> 3 * w[j]], Step, k), r[k + 1], 1)
Turned == Len(r) = NGrid => \A k \in {1, NGrid - 1} : Near(Mod(Reverse(lam), Reverse(w), Step, k), r[k + 1], 1)
(* a channel without weight is absent *)
Absent == (Len(r) = NGrid /\ \E j \in DOMAIN w : w[j] = 0 /\ Len(w) > 2) =>
    LET g == {j \in DOMAIN w : w[j] > 0}
        l2 == SelectSeq([j \in DOMAIN lam |-> <<lam[j], w[j]>>], LAMBDA x : x[2] > 0)
    IN \A k \in {1, NGrid - 1} : Near(Mod([j \in DOMAIN l2 |-> l2[j][1]], [j \in DOMAIN l2 |-> l2[j][2]], Step, k), r[k + 1], 1)
(* even, equally weighted channels: the first null is where their spacing says, and the strongest lobe before *)
(* the grating lobe stays below a half                                                                          *)
Even == Len(lam) >= 3 /\ Cardinality({w[j] : j \in DOMAIN w}) = 1 /\ \A j \in 2..(Len(lam) - 1) : lam[j + 1] - lam[j] = lam[2] - lam[1]
Null == (Len(r) = NGrid /\ Even) => \A k \in 1..(NGrid - 1) :
    (Step * k * (lam[2] - lam[1]) * Len(lam) = 720) => r[k + 1] <= 12
Finishes == <>(Len(lam) < 2 \/ Wt(w) = 0 \/ Len(r) > NGrid)
EmitCase == (Emit /\ Len(r) = NGrid) => CSVWrite("%1$s", <<ToJson([lam |-> lam, w |-> w])>>, IOEnv.CASES)
=============================================================================
