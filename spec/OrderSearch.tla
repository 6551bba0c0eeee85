---------------------------- MODULE OrderSearch -----------------------------
(* The order search of the Stokes I fit: starting from order 0, one order at a   *)
(* time, as long as AIC strictly decreases and the limit is not reached.         *)
EXTENDS Fix, Json, CSV, IOUtils
CONSTANTS MaxOrder, Levels, Emit
VARIABLES aic, limit, order, done
vars == <<aic, limit, order, done>>
Init == /\ aic \in [1..(MaxOrder + 1) -> Levels]   \* aic[p+1]: AIC of the fixed-order fit p
        /\ limit \in 1..MaxOrder
        /\ order = 0 /\ done = FALSE
Raise == ~done /\ (IF order = limit THEN FALSE ELSE aic[order + 2] < aic[order + 1]) /\ order' = order + 1 /\ UNCHANGED <<aic, limit, done>>
Stop == ~done /\ (IF order = limit THEN TRUE ELSE aic[order + 2] >= aic[order + 1]) /\ done' = TRUE /\ UNCHANGED <<aic, limit, order>>
Next == Raise \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
(* closed form used to judge the implementation *)
Chosen(a, k) == CHOOSE p \in 0..k : /\ \A q \in 0..(p - 1) : a[q + 2] < a[q + 1]
                                    /\ (IF p = k THEN TRUE ELSE a[p + 2] >= a[p + 1])
LimitKept == order <= limit
DownhillOnly == \A q \in 0..(order - 1) : aic[q + 2] < aic[q + 1]
MatchesClosedForm == done => order = Chosen(aic, limit)
NeverWorse == done => aic[order + 1] <= aic[1]
OneAtATime == [][ order' \in {order, order + 1} /\ (done => UNCHANGED vars) ]_vars
Terminates == <>done
Pattern == [q \in 1..MaxOrder |-> aic[q + 1] < aic[q]]
EmitCase == (Emit /\ done) => CSVWrite("%1$s", <<ToJson([down |-> Pattern, limit |-> limit])>>, IOEnv.CASES)
=============================================================================
