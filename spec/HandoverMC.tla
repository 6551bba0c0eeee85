----------------------------- MODULE HandoverMC -----------------------------
EXTENDS Handover, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
P == {1, 2}
Ops == {<<"synth", 1>>, <<"synth", 2>>, <<"clean", 0>>} \cup {<<o, p>> : o \in {"save", "cleanfile", "saveclean", "clisynth", "cliclean"}, p \in P}
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start(P) /\ hist = <<>>
Do(op) == Len(hist) < MaxOps /\ Enabled(st, op) /\ st' = Apply(st, op) /\ hist' = Append(hist, op)
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* a file only ever changes by an operation that names its prefix *)
OthersKept == [][ \A p \in P : (hist'[Len(hist')][2] # p \/ hist'[Len(hist')][1] = "synth") =>
                     st'.syn[p] = st.syn[p] /\ st'.clf[p] = st.clf[p] ]_vars
(* cleaning from files and from memory agree whenever the files hold what is in memory *)
FileIsMemory == \A p \in P : (st.syn[p] # 0 /\ st.syn[p] = st.mem) => Apply(st, <<"cleanfile", p>>).cl = Apply(st, <<"clean", 0>>).cl
(* reading never invents: every value stems from a synthesis that was made *)
Made == {hist[i][2] : i \in {j \in DOMAIN hist : hist[j][1] \in {"synth", "clisynth"}}}
NothingInvented == {st.mem, st.cl} \cup {st.syn[p] : p \in P} \cup {st.clf[p] : p \in P} \subseteq Made \cup {0}
EmitCase == (Emit /\ Len(hist) = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.CASES)
=============================================================================
