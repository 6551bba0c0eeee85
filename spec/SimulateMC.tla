----------------------------- MODULE SimulateMC -----------------------------
(* A catalogue entry is built component by component, and its spectrum observed channel by   *)
(* channel; channels in a flagged range are blank.                                            *)
EXTENDS Simulate, Json, CSV, IOUtils
CONSTANTS Kinds, Parts, Freqs, SIs, Ranges, MaxParts, Emit
PartsQ == {Part(600, 80000, 30, 0), Part(250, -120000, -110, 40), Part(0, 10000, 55, 9), Part(400, 30000, 0, 0)}
PartsT == {Part(p, psi, rm, sig) : p \in {0, 300}, psi \in {0, -120000}, rm \in {0, 55, -110}, sig \in {0, 40}}
FreqsQ == <<700, 950, 1400>>
FreqsT == <<200, 700, 950, 1400, 3000>>
SIq == {0, -7}
RangesQ == {<<>>, <<940, 1400>>}
VARIABLES kind, cs, si, flag, seen
vars == <<kind, cs, si, flag, seen>>
Init == kind \in Kinds /\ cs = <<>> /\ si \in SIs /\ flag \in Ranges /\ seen = <<>>
Put == Len(cs) < MaxParts /\ seen = <<>> /\ \E c \in Parts : cs' = Append(cs, c) /\ UNCHANGED <<kind, si, flag, seen>>
In(f) == flag # <<>> /\ f >= flag[1] /\ f <= flag[2]
Look == /\ cs # <<>> /\ Len(seen) < Len(Freqs)
        /\ LET f == Freqs[Len(seen) + 1]
               i == Flux(si, f, Freqs[1])
           IN seen' = Append(seen, IF In(f) THEN <<>> ELSE <<i, CScale(i, Pol(kind, cs, f))>>)
        /\ UNCHANGED <<kind, cs, si, flag>>
Next == Put \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Look)
---------------------------------------------------------------------------
F == Freqs[Len(seen)]
L == seen[Len(seen)]
Lit == seen # <<>> /\ L # <<>>
Now == Pol(kind, cs, F)
Blank == seen # <<>> => (In(F) <=> L = <<>>)
AtReference == (Len(seen) = 1 /\ Lit) => Near(L[1], S, 5)
Mod2(z) == ((z[1] \div 100) * (z[1] \div 100)) + ((z[2] \div 100) * (z[2] \div 100))      \* scale 10^6
(* polarised no more than its parts *)
Limited == Lit => LET t == SumF(LAMBDA j : cs[j].p, Len(cs)) IN Mod2(Now) <= (t + 2) * (t + 2)
(* a dispersing screen dims and does not rotate *)
Clean(c) == [c EXCEPT !.sig = 0]
Screens == (Lit /\ kind = "burn" /\ Len(cs) = 1) =>
    LET a == Pol("burn", <<cs[1]>>, F) b == Pol("burn", <<Clean(cs[1])>>, F)
    IN /\ Mod2(a) <= Mod2(b) + 400
       /\ Near((a[1] \div 10) * (b[2] \div 10), (a[2] \div 10) * (b[1] \div 10), 600000)
       /\ (a[1] * (b[1] \div 1000)) + (a[2] * (b[2] \div 1000)) >= -20000
(* twice the dispersion is four times the loss in the logarithm *)
Quadratic == (Lit /\ kind = "burn" /\ Len(cs) = 1 /\ cs[1].p > 0) =>
    LET g(s) == Gauss2((s * (LamSq(F) \div 100)) \div 100)
    IN \A s \in {1, 2} : LET u == g(s) w == g(2 * s) IN u > 60000 => Near(w, MulS(MulS(u, u), MulS(u, u)), 150)
(* components side by side add in any order; layers do not, but an unpolarised screen in front only rotates *)
AnyOrder == (Lit /\ kind = "burn" /\ Len(cs) >= 2) => CNear(Now, Pol("burn", Reverse(cs), F), 3)
Screen(rm) == Part(0, 0, rm, 0)
InFront == (Lit /\ kind = "stack") => \A rm \in {7, -20} : CNear(Pol("stack", Append(cs, Screen(rm)), F), CMul(Now, RotM(Th(rm, F))), 40)
Behind == (Lit /\ kind = "stack") => CNear(Pol("stack", <<Screen(13)>> \o cs, F), Now, 3)
(* without rotation inside it a layer is a thin component *)
ThinLayer == (Lit /\ Len(cs) = 1 /\ cs[1].rm = 0 /\ cs[1].sig = 0) => CNear(Pol("stack", cs, F), Pol("burn", cs, F), 5)
(* a layer in half: the same slab as two stacked halves of half the rotation, emission p/2 each *)
Halves == (Lit /\ kind = "stack" /\ Len(cs) = 1 /\ cs[1].rm % 2 = 0 /\ cs[1].p % 2 = 0) =>
    LET h == [cs[1] EXCEPT !.rm = cs[1].rm \div 2, !.p = cs[1].p \div 2] IN CNear(Pol("stack", <<h, h>>, F), Now, 60)
Finishes == <>(cs = <<>> \/ Len(seen) = Len(Freqs))
BeamRight == /\ Near(Beam(0, 0, 300, 500, 40), S, 2)
             /\ Near(Beam(150, 0, 300, 500, 0), 50000, 30) /\ Near(Beam(0, 250, 300, 500, 0), 50000, 30)
             /\ Near(Beam(250, 0, 300, 500, 180), 50000, 60)
             /\ Near(Beam(177, 177, 300, 500, 90), 50000, 200) /\ Near(Beam(106, -106, 300, 500, 90), 50000, 200)
EmitCase == (Emit /\ Len(seen) = Len(Freqs)) => CSVWrite("%1$s", <<ToJson([kind |-> kind, cs |-> cs, si |-> si, flag |-> flag])>>, IOEnv.CASES)
=============================================================================
