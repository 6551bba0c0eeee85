------------------------------ MODULE RobustMC ------------------------------
(* Values arrive one after the other (some blank); statistics must follow the definitions *)
(* whatever the order, and be insensitive to a wild value.                                *)
EXTENDS Robust, Json, CSV, IOUtils
CONSTANTS Values, MaxLen, NSamp, Emit
Vals == {0, 1, 4, 9, -9, -3}
VARIABLES s, post, k
vars == <<s, post, k>>
Init == s = <<>> /\ post = <<>> /\ k = 0
Arrive == k = 0 /\ Len(s) < MaxLen /\ \E v \in Values \cup {NaN} : s' = Append(s, v) /\ UNCHANGED <<post, k>>
G == Good(s)
D == [i \in DOMAIN G |-> 1000]
R == [i \in DOMAIN G |-> 1000 * G[i]]
Step == Span(R, D)
(* the posterior of the scatter is sampled from the smallest value on *)
Sample == /\ Len(s) = MaxLen /\ Len(G) >= 2 /\ k < NSamp
          /\ k' = k + 1
          /\ post' = Append(post, LgPost(R, D, RDiv(Step * k', NSamp), k'))
          /\ UNCHANGED s
Next == Arrive \/ Sample
Spec == Init /\ [][Next]_vars /\ WF_vars(Sample)
---------------------------------------------------------------------------
Shift(t, c) == [i \in DOMAIN t |-> t[i] + c]
Times(t, c) == [i \in DOMAIN t |-> t[i] * c]
MadShift == G # <<>> => Mad4(Shift(G, 7)) = Mad4(G)
MadScale == G # <<>> => Mad4(Times(G, 3)) = 3 * Mad4(G) /\ Mad4(Times(G, -2)) = 2 * Mad4(G)
MadOrder == Len(G) >= 2 => Mad4(SortSeq(G, <)) = Mad4(G)
(* one wild value among three or more cannot take the median out of the range of the others *)
Breakdown == Len(G) >= 3 => LET w == Append(SubSeq(G, 1, Len(G) - 1), 1000000) o == SubSeq(G, 1, Len(G) - 1)
                            IN /\ Med2(w) <= 2 * MaxSeq(o) /\ Med2(w) >= 2 * MinSeq(o)
                               /\ Mad4(w) <= 4 * (MaxSeq(o) - MinSeq(o))
A == [i \in DOMAIN G |-> Abs(G[i])]
X == [i \in DOMAIN G |-> 3 * i]
MomentShift == (G # <<>> /\ SumSeq(A) > 0) => Mom2K2(A, Shift(X, 11)) = Mom2K2(A, X) /\ Mom2K2(A, X) >= 0
MomentPoint == (G # <<>> /\ Cardinality({i \in DOMAIN A : A[i] > 0}) = 1) => Mom2K2(A, X) = 0
(* cumulative curve of the values: percentiles are ordered and lie among the positions *)
Cum == [i \in DOMAIN A |-> SumSeq(SubSeq(A, 1, i)) * (1000 \div Max2(1, SumSeq(A)))]
Percentiles == G # <<>> => LET c(q) == Crossing(X, Cum, q) IN
    \A q \in {100, 300, 500} : LET u == c(q) v == c(q + 100) IN (v # NaN => u # NaN) /\ ((u # NaN /\ v # NaN) => (u <= v /\ u >= 3000 /\ v <= 3000 * Len(X)))
(* residuals no larger than their errors: the posterior falls all the way *)
NoExcess == (post # <<>> /\ \A i \in DOMAIN G : G[i] = 0) => \A i \in 1..(Len(post) - 1) : post[i + 1] < post[i]
(* the posterior depends on the residuals by their squares only, and not on their order *)
Mirror == (k = 1) => LgPost(Times(R, -1), D, RDiv(Step, NSamp), 1) = post[1]
OrderFree == (k = 1) => Abs(LgPost(SortSeq(R, <), D, RDiv(Step, NSamp), 1) - post[1]) <= 1
(* added scatter is recovered: strong residuals (all of one size) peak within a factor of two of that size *)
Excess == (Len(post) = NSamp /\ Len(G) >= 4 /\ \A i \in DOMAIN G : Abs(G[i]) = 9 /\ \E a, b \in DOMAIN G : G[a] # G[b]) =>
    LET m == CHOOSE i \in 1..NSamp : \A j \in 1..NSamp : post[j] <= post[i]
        at == RDiv(Step * m, NSamp)
    IN at >= 4500 /\ at <= 18000
LogRight == Lg(1) = 0 /\ Near(Lg(2), 30103, 4) /\ Near(Lg(7), 84510, 4) /\ Near(Lg(123456), 509151, 4) /\ Near(Lg(2000000000), 930103, 4)
Finishes == <>(Len(s) < MaxLen \/ Len(G) < 2 \/ k = NSamp)
EmitCase == (Emit /\ k = 0 /\ Len(s) = MaxLen) => CSVWrite("%1$s", <<ToJson([s |-> s])>>, IOEnv.CASES)
=============================================================================
