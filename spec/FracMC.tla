------------------------------- MODULE FracMC -------------------------------
(* Dividing a spectrum by a model, channel by channel, while channels are edited:  *)
(* an edit of one channel never shows in another, and NaN appears exactly where     *)
(* the division is not finite.                                                       *)
EXTENDS Fix, Json, CSV, IOUtils
CONSTANTS N, Emit
VARIABLES q, m, out
vars == <<q, m, out>>
QV == {0, 3, NaN}
MV == {0, 2, -1, NaN}
Div(a, b) == IF a = NaN \/ b = NaN \/ b = 0 THEN NaN ELSE (1000 * a) \div b
Divide(qq, mm) == [j \in 1..N |-> Div(qq[j], mm[j])]
Init == q \in [1..N -> QV] /\ m \in [1..N -> MV] /\ out = Divide(q, m)
EditQ(j) == \E v \in QV : v # q[j] /\ q' = [q EXCEPT ![j] = v] /\ UNCHANGED m /\ out' = Divide(q', m)
EditM(j) == \E v \in MV : v # m[j] /\ m' = [m EXCEPT ![j] = v] /\ UNCHANGED q /\ out' = Divide(q, m')
Next == \E j \in 1..N : EditQ(j) \/ EditM(j)
Spec == Init /\ [][Next]_vars
Local == [][ \E j \in 1..N : \A k \in (1..N) \ {j} : out'[k] = out[k] ]_vars
NaNExactly == \A j \in 1..N : (out[j] = NaN) <=> (q[j] = NaN \/ m[j] = NaN \/ m[j] = 0)
EmitCase == Emit => CSVWrite("%1$s", <<ToJson([q |-> q, m |-> m])>>, IOEnv.CASES)
=============================================================================
