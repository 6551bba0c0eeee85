----------------------------- MODULE StokesIMC ------------------------------
(* A model carried from reference frequency to reference frequency: its value at  *)
(* every frequency is an invariant, and the coefficients only depend on where the  *)
(* reference is, not on the path taken.                                            *)
EXTENDS StokesI, Json, CSV, IOUtils
CONSTANTS Fn, HighCoeffs, LowCoeffs, MaxSteps, Emit
VARIABLES p0, p, at, n, steps
vars == <<p0, p, at, n, steps>>
(* reference positions: linear  f_ref/f0 = at/20 ; log  log10(f_ref/f0) = at/20 *)
Places == IF Fn = "linear" THEN {16, 20, 25} ELSE {-3, 0, 2, 5}
Home == IF Fn = "linear" THEN 20 ELSE 0
Go(q, a, b) == IF Fn = "linear" THEN RenormLin(q, b, a) ELSE RenormLog(q, (b - a) * 5000)
(* argument of a frequency (20ths) seen from reference a *)
Seen(m, a) == IF Fn = "linear" THEN (m * S) \div a ELSE (m - a) * 5000
Freqs == IF Fn = "linear" THEN {14, 20, 27} ELSE {-4, 1, 6}
Hs == {-20000, 10000}
Init == /\ p0 \in {<<a, b, c, d, e, g>> : a \in HighCoeffs, b \in HighCoeffs, c \in LowCoeffs, d \in HighCoeffs, e \in LowCoeffs, g \in {100000, 37000}}
        /\ p = p0 /\ at = Home /\ n = 0 /\ steps = <<>>
Move == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED p0
        /\ \E b \in Places : b # at /\ at' = b /\ p' = Go(p, at, b) /\ steps' = Append(steps, b)
Next == Move
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
SameModel == \A m \in Freqs : Near(Value(Fn, p, Seen(m, at)), Value(Fn, p0, Seen(m, Home)), 60 * Max2(1, n) + Abs(Value(Fn, p0, Seen(m, Home))) \div 2000)
PathFree == \A k \in 1..6 : Near(p[k], (IF at = Home THEN p0 ELSE Go(p0, Home, at))[k], 40 + 60 * n + Abs(p0[k]) \div 2000)
EmitCase == (Emit /\ n = MaxSteps) => CSVWrite("%1$s", <<ToJson([fn |-> Fn, p |-> p0, steps |-> steps])>>, IOEnv.CASES)
=============================================================================
