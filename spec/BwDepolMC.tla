------------------------------ MODULE BwDepolMC -----------------------------
(* A channel is split in frequency again and again.  The response of the channel is  *)
(* the width-weighted mean of those of its parts, whatever the splitting; it never    *)
(* exceeds one; it is plain rotation in the narrow limit.                            *)
EXTENDS BwDepol, Json, CSV, IOUtils
CONSTANTS Width, Smallest, MaxParts, G, Lams, Phis, Emit
VARIABLES parts, lam, phi
vars == <<parts, lam, phi>>
Q == 8
R(p) == Resp(G, phi - 60, lam, p[1], p[2], Q)
Init == /\ parts = {<< -Width, Width >>} /\ lam \in Lams /\ phi \in Phis
Split == /\ Cardinality(parts) < MaxParts
         /\ \E p \in parts : /\ p[2] - p[1] > Smallest
                             /\ parts' = (parts \ {p}) \cup { << p[1], (p[1] + p[2]) \div 2 >>, << (p[1] + p[2]) \div 2, p[2] >> }
         /\ UNCHANGED <<lam, phi>>
Next == Split
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Whole == Resp(G, phi - 60, lam, -Width, Width, 32)
Parts == SetToSortSeq(parts, LAMBDA x, y : x[1] < y[1])
WSum(c) == SumF(LAMBDA i : RDiv(R(Parts[i])[c] * ((Parts[i][2] - Parts[i][1]) \div Smallest), (2 * Width) \div Smallest), Len(Parts))
MeanOfParts == Near(WSum(1), Whole[1], 60) /\ Near(WSum(2), Whole[2], 60)
Tiles == /\ SumF(LAMBDA i : Parts[i][2] - Parts[i][1], Len(Parts)) = 2 * Width
         /\ \A i \in 1..(Len(Parts) - 1) : Parts[i][2] = Parts[i + 1][1]
AtMostOne == \A p \in parts : Mod2(R(p)) <= S + 100
Opposite == \A p \in parts : LET o == Resp(G, 60 - phi, lam, p[1], p[2], Q) IN Near(o[1], R(p)[1], 2) /\ Near(o[2], -R(p)[2], 2)
DepthZero == phi = 60 => \A p \in parts : Near(R(p)[1], S, 1) /\ Near(R(p)[2], 0, 1)
(* distance from plain rotation at the centre of the part: at most half the phase range *)
Narrow == \A p \in parts :
    LET b == Base(G, phi - 60, lam)
        c == << CosM(PhaseAt(b, (p[1] + p[2]) \div 2)), SinM(PhaseAt(b, (p[1] + p[2]) \div 2)) >>
        rng == Abs(PhaseAt(b, p[1]) - PhaseAt(b, p[2]))          \* 1/1000 degree
        r == R(p)
    IN Abs(r[1] - c[1]) + Abs(r[2] - c[2]) <= rng + 60
EmitCase == (Emit /\ Cardinality(parts) = MaxParts) =>
    CSVWrite("%1$s", <<ToJson([g |-> G, lam |-> lam, phi |-> phi - 60, parts |-> Parts])>>, IOEnv.CASES)
=============================================================================
