----------------------------- MODULE QUModelsMC -----------------------------
(* A source is assembled step by step: emitters are added, thickened into slabs,    *)
(* given internal dispersion, put behind a dispersing screen, rotated, scaled.      *)
(* TLC checks on every reachable source that the closed forms used by the models    *)
(* are the physical averages they stand for, and that the simplification edges       *)
(* between models preserve the emission.  Reachable sources are emitted, with the     *)
(* models that can express them, for replay on the code.                             *)
EXTENDS QUModels, Json, CSV, IOUtils
CONSTANTS MaxComp, MaxSteps, Emit, Fine
VARIABLES src, steps
vars == <<src, steps>>
G == 1
Lams == {0, 7, 90, 250}
Ps == IF Fine THEN {0, 300, 500} ELSE {0, 450}
Psis == IF Fine THEN {0, 37500, 90000, 180000} ELSE {37500}
Rms == IF Fine THEN {-900, 0, 640} ELSE {-900, 640}
Init == src = <<>> /\ steps = 0
Add1 == /\ Len(src) < MaxComp
        /\ \E p \in Ps, psi \in Psis, rm \in Rms :
              src' = Append(src, Comp(p, psi, rm, 0, 0, 0))
Thicken == \E i \in DOMAIN src : src[i].delta = 0 /\ \E d \in {2, 400, -400, 2400} : src' = [src EXCEPT ![i].delta = d]
Disperse == \E i \in DOMAIN src : src[i].sint = 0 /\ \E s \in {2, 60, 500} : src' = [src EXCEPT ![i].sint = s]
Screen == /\ src # <<>> /\ \A i \in DOMAIN src : src[i].sext = 0
          /\ \E s \in {40, 300} : src' = [i \in DOMAIN src |-> [src[i] EXCEPT !.sext = s]]
ScreenOne == /\ Len(src) > 1 /\ src[1].sext = 0 /\ src' = [src EXCEPT ![1].sext = 120]
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Add1 \/ Thicken \/ Disperse \/ Screen \/ ScreenOne)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
At(s, lam) == Emission(s, G, lam)
(* angle has period 180 degrees; 90 degrees reverse the sign *)
Periodic == \A lam \in Lams : LET a == At(src, lam) IN
    /\ a = At([i \in DOMAIN src |-> [src[i] EXCEPT !.psi = @ + 180000]], lam)
    /\ CNear(At([i \in DOMAIN src |-> [src[i] EXCEPT !.psi = @ + 90000]], lam), <<-a[1], -a[2]>>, 30)
(* no more than the polarisation put in *)
Bounded == \A lam \in Lams : LET a == At(src, lam) t == SumF(LAMBDA i : 100 * src[i].p, Len(src)) IN
    MulS(a[1], a[1]) + MulS(a[2], a[2]) <= MulS(t, t) + 60
(* at zero wavelength every effect of Faraday rotation is gone *)
ZeroWavelength == CNear(At(src, 0), Emission([i \in DOMAIN src |-> Comp(src[i].p, src[i].psi, 0, 0, 0, 0)], G, 1), 20 * Len(src))
(* a slab without dispersion is the mean over its depths, dispersion inside it is the mean of what lies in front *)
Slices == 16
SlabIsAverage == \A i \in DOMAIN src : src[i].sext = 0 => \A lam \in Lams :
    LET c == src[i]
        mid(k) == LET y == Y4(G, c.sint, lam)                                                    \* midpoint of slice k
                      e == (((y * y) \div 1000) * ((2 * k) - 1)) \div (2 * Slices)              \* 10^-5
                  IN CScale(Pow10(-(2 * ((e * 4343) \div 10000))), RotM((2 * c.psi) + (G * c.rm * lam) + ((G * c.delta * lam * ((2 * k) - 1)) \div (2 * Slices))))
        sum == FoldLeft(LAMBDA acc, k : CAdd(acc, mid(k)), <<0, 0>>, [k \in 1..Slices |-> k])
        smooth == Abs(G * c.delta * lam) < 400000 /\ Abs(Y4(G, c.sint, lam)) < 12000
    IN smooth => CNear(CScale(100 * c.p, << sum[1] \div Slices, sum[2] \div Slices >>), At(<<c>>, lam), 700)
(* external dispersion is the mean over a normal distribution of depths (5-point Gauss-Hermite) *)
HN == <<0, 135563, -135563, 285697, -285697>>
HW == <<53333, 22208, 22208, 1126, 1126>>
ScreenIsAverage == \A i \in DOMAIN src : (src[i].sext > 0 /\ src[i].delta = 0 /\ src[i].sint = 0) => \A lam \in Lams :
    LET c == src[i]
        one(k) == CScale(HW[k], RotM((2 * c.psi) + (G * c.rm * lam) + ((G * c.sext * lam) \div 1000) * (HN[k] \div 100)))
        sum == FoldLeft(LAMBDA acc, k : CAdd(acc, one(k)), <<0, 0>>, <<1, 2, 3, 4, 5>>)
    IN Abs(Y4(G, c.sext, lam)) < 6000 => CNear(CScale(100 * c.p, sum), At(<<c>>, lam), 400)
Additive == \A lam \in Lams : Len(src) > 1 => At(src, lam) = CAdd(At(<<src[1]>>, lam), At(Tail(src), lam))
(* the simplification edges: a parameter tending to zero meets the simpler source *)
Continuous == \A lam \in Lams : \A i \in DOMAIN src :
    (src[i].delta = 2 \/ src[i].sint = 2) =>
       CNear(At(<<src[i]>>, lam), At(<<[src[i] EXCEPT !.delta = IF @ = 2 THEN 0 ELSE @, !.sint = IF @ = 2 THEN 0 ELSE @]>>, lam), 900)
(* models that express the source *)
Fits(m) ==
    /\ Len(src) = NComp(m)
    /\ CASE m \in {1, 11, 111} -> \A i \in DOMAIN src : src[i].delta = 0 /\ src[i].sint = 0 /\ src[i].sext = 0
         [] m = 2 -> src[1].delta = 0 /\ src[1].sint = 0
         [] m = 3 -> src[1].sext = src[2].sext /\ \A i \in DOMAIN src : src[i].delta = 0 /\ src[i].sint = 0
         [] m = 4 -> \A i \in DOMAIN src : src[i].delta = 0 /\ src[i].sint = 0
         [] m = 5 -> src[1].sint = 0 /\ src[1].sext = 0
         [] m = 6 -> \A i \in DOMAIN src : src[i].sint = 0 /\ src[i].sext = 0
         [] m = 7 -> src[1].sext = 0
         [] m = 12 -> TRUE
Expressible == {m \in Models : Fits(m)}
EmitCase == (Emit /\ src # <<>> /\ Expressible # {}) =>
    CSVWrite("%1$s", <<ToJson([src |-> src, models |-> Expressible])>>, IOEnv.CASES)
=============================================================================
