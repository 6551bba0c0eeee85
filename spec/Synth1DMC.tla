----------------------------- MODULE Synth1DMC ------------------------------
(* The pipeline, stage by stage.  Each stage looks only at what it is given by     *)
(* the stages before it (fractional spectra, weights, mask), as the program does.   *)
EXTENDS Synth1D, Json, CSV, IOUtils
CONSTANTS NCh, Emit
DataStates == {"ok", "nanQ", "nanU", "nanI", "nanAll"}
NoiseStates == {"ok", "nanQ", "infU", "both"}
VARIABLES stage, data, noise, mode, stokesI, frac, wt, msk, sets
vars == <<stage, data, noise, mode, stokesI, frac, wt, msk, sets>>
Ch == 1..NCh
Init == /\ stage = "read" /\ data \in [Ch -> DataStates] /\ noise \in [Ch -> NoiseStates]
        /\ mode \in {"variance", "uniform"} /\ stokesI \in BOOLEAN
        /\ (mode = "uniform" => \A j \in Ch : noise[j] = "ok")
        /\ frac = [j \in Ch |-> 0] /\ wt = [j \in Ch |-> 0] /\ msk = {} /\ sets = <<>>
(* Q/I and U/I are finite where Q and U are: the model is defined everywhere even if I is not *)
Frac == /\ stage = "read" /\ stage' = "frac"
        /\ frac' = [j \in Ch |-> (IF data[j] \in {"nanQ", "nanAll"} THEN {} ELSE {"q"}) \cup (IF data[j] \in {"nanU", "nanAll"} THEN {} ELSE {"u"})]
        /\ UNCHANGED <<data, noise, mode, stokesI, wt, msk, sets>>
Weigh == /\ stage = "frac" /\ stage' = "weigh"
         /\ wt' = [j \in Ch |-> IF mode = "uniform" THEN 1 ELSE IF noise[j] = "ok" THEN j + 1 ELSE 0]
         /\ UNCHANGED <<data, noise, mode, stokesI, frac, msk, sets>>
Mask == /\ stage = "weigh" /\ stage' = "mask" /\ msk' = {j \in Ch : frac[j] # {"q", "u"}}
        /\ UNCHANGED <<data, noise, mode, stokesI, frac, wt, sets>>
Synth == /\ stage = "mask" /\ stage' = "synth"
         /\ sets' = Append(sets, {j \in Ch : "q" \in frac[j] /\ "u" \in frac[j] /\ wt[j] > 0})
         /\ UNCHANGED <<data, noise, mode, stokesI, frac, wt, msk>>
Rmsf == /\ stage = "synth" /\ stage' = "rmsf" /\ sets' = Append(sets, {j \in Ch : j \notin msk /\ wt[j] > 0})
        /\ UNCHANGED <<data, noise, mode, stokesI, frac, wt, msk>>
Noise == /\ stage = "rmsf" /\ stage' = "noise" /\ sets' = Append(sets, {j \in Ch : j \notin msk /\ wt[j] > 0})
         /\ UNCHANGED <<data, noise, mode, stokesI, frac, wt, msk>>
Count == /\ stage = "noise" /\ stage' = "done" /\ sets' = Append(sets, {j \in Ch : j \notin msk /\ wt[j] # 0})
         /\ UNCHANGED <<data, noise, mode, stokesI, frac, wt, msk>>
Next == Frac \/ Weigh \/ Mask \/ Synth \/ Rmsf \/ Noise \/ Count
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
AllAlike == \A a, b \in DOMAIN sets : sets[a] = sets[b]
ExcludesUnusable == \A a \in DOMAIN sets : \A j \in sets[a] : data[j] \in {"ok", "nanI"} /\ noise[j] = "ok"
KeepsUsable == \A a \in DOMAIN sets : \A j \in Ch : (data[j] \in {"ok", "nanI"} /\ noise[j] = "ok") => j \in sets[a]
Finishes == <>(stage = "done")
EmitCase == (Emit /\ stage = "done" /\ sets[1] # {} /\ Cardinality({j \in Ch : data[j] \notin {"nanI", "nanAll"}}) > 0) =>
    CSVWrite("%1$s", <<ToJson([data |-> data, noise |-> noise, mode |-> mode, stokesI |-> stokesI])>>, IOEnv.CASES)
=============================================================================
