------------------------------ MODULE QUPredict -----------------------------
(* Q and U predicted from Faraday-depth components: the inverse of RM synthesis.     *)
(* A component is [phi, re, im] in lattice units (RMSynth) and 1/100 flux units at    *)
(* the reference wavelength; channel j sees it turned by 2 phi (lambda_j^2-lambda0^2) *)
(* and scaled by the shape of the Stokes I model.                                    *)
EXTENDS RMSynth, StokesI
Turn(g, phik, lamj, l0) == -Phase(g, phik, lamj, l0)
(* scale TS/100 *)
PredRe(cs, g, lamj, l0) == SumF(LAMBDA c : LET th == Turn(g, cs[c].phi, lamj, l0) IN (cs[c].re * Cos(th)) - (cs[c].im * Sin(th)), Len(cs))
PredIm(cs, g, lamj, l0) == SumF(LAMBDA c : LET th == Turn(g, cs[c].phi, lamj, l0) IN (cs[c].re * Sin(th)) + (cs[c].im * Cos(th)), Len(cs))
(* shape of a Stokes I model: its value over the value at its reference, scale S *)
Shape(fn, p, arg) == IF fn = "none" THEN S ELSE IF fn = "linear" THEN FDiv(Horner(p, arg), Horner(p, S), 5) ELSE Pow10(Expo(p, arg))
Model(fn, p, arg) == IF fn = "none" THEN S ELSE Value(fn, p, arg)
At(cs, ph) == << SumF(LAMBDA c : IF cs[c].phi = ph THEN cs[c].re ELSE 0, Len(cs)), SumF(LAMBDA c : IF cs[c].phi = ph THEN cs[c].im ELSE 0, Len(cs)) >>
=============================================================================
