------------------------------- MODULE QUFitMC ------------------------------
(* The reporting of an angle.  Samples are drawn on a coarse circle (HC steps =      *)
(* 180 degrees), the tool decides whether to turn the circle by half, summarises      *)
(* linearly and turns back.  TLC checks that for every concentrated set of samples    *)
(* this is the circular summary, and that turning all samples turns the summary.      *)
EXTENDS QUFit, Json, CSV, IOUtils
CONSTANTS N, HC, Emit
VARIABLES samples, stage, turned, work, rep
vars == <<samples, stage, turned, work, rep>>
Half == HC \div 2
Init == samples = <<>> /\ stage = "draw" /\ turned = FALSE /\ work = <<>> /\ rep = [med |-> 0, plus |-> 0, minus |-> 0]
Draw == /\ stage = "draw" /\ Len(samples) < N
        /\ \E a \in 0..(HC - 1) : (IF samples = <<>> THEN TRUE ELSE a >= samples[Len(samples)]) /\ samples' = Append(samples, a)
        /\ UNCHANGED <<stage, turned, work, rep>>
(* on the doubled angle the mean direction points away from the seam or towards it *)
Decide == /\ stage = "draw" /\ Len(samples) = N /\ stage' = "turn"
          /\ turned' = (SumF(LAMBDA i : Cos((samples[i] * 720) \div HC), N) > 0)
          /\ UNCHANGED <<samples, work, rep>>
Turn == /\ stage = "turn" /\ stage' = "sum"
        /\ work' = [i \in DOMAIN samples |-> IF turned THEN (samples[i] + Half) % HC ELSE samples[i]]
        /\ UNCHANGED <<samples, turned, rep>>
Summarise == /\ stage = "sum" /\ stage' = "back" /\ rep' = Linear([i \in DOMAIN work |-> 100 * work[i]])
             /\ UNCHANGED <<samples, turned, work>>
Back == /\ stage = "back" /\ stage' = "done"
        /\ rep' = IF turned THEN [rep EXCEPT !.med = (IF @ < 100 * Half THEN @ + (100 * Half) ELSE @ - (100 * Half))] ELSE rep
        /\ UNCHANGED <<samples, turned, work>>
Next == Draw \/ Decide \/ Turn \/ Summarise \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
H == [i \in DOMAIN samples |-> 100 * samples[i]]
InHalf == (stage = "done" /\ Tight(H, 100 * HC)) =>
    LET c == Circular(H, 100 * HC) IN Abs(Off(rep.med, c.med, 100 * HC)) <= 1 /\ Near(rep.plus, c.plus, 1) /\ Near(rep.minus, c.minus, 1)
Folded == stage = "done" => rep.med >= 0 /\ rep.med < 100 * HC
ErrorsPositive == stage = "done" => rep.plus >= 0 /\ rep.minus >= 0
TurnsAlong == (stage = "done" /\ Tight(H, 100 * HC)) => \A d \in {1, Half} :
    LET a == Circular(H, 100 * HC) b == Circular([i \in DOMAIN H |-> (H[i] + (100 * d)) % (100 * HC)], 100 * HC)
    IN Abs(Off(b.med - (100 * d), a.med, 100 * HC)) <= 1 /\ Near(a.plus, b.plus, 1) /\ Near(a.minus, b.minus, 1)
Finishes == <>(stage = "done")
EmitCase == (Emit /\ stage = "done" /\ Tight(H, 100 * HC)) =>
    CSVWrite("%1$s", <<ToJson([samples |-> samples, hc |-> HC])>>, IOEnv.CASES)
=============================================================================
