--------------------------- MODULE QUModelsTrace ---------------------------
(* Judges recorded evaluations of the built-in QU-fitting models and their priors. *)
EXTENDS QUModels, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol(in) == 60 + in.tol
At(in, v, j) == Emission(SourceOf(in.model, v), in.g, in.lam[j])
Chans(in) == DOMAIN in.lam
CNan(z) == ~(IsNum(z[1]) /\ IsNum(z[2]))
ValueEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    Broken([Finite |-> \A j \in Chans(in) : ~CNan(out.val[j]),
            Formula |-> \A j \in Chans(in) : CNan(out.val[j]) \/ CNear(out.val[j], At(in, in.v, j), Tol(in)),
            ChannelByChannel |-> out.each,
            ArgumentsUntouched |-> out.untouched])
(* the same source through several models and through equivalent parameter vectors *)
AlikeEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([Finite |-> \A n \in DOMAIN out.vals : \A j \in Chans(in) : ~CNan(out.vals[n][j]),
            Nested |-> \A n \in DOMAIN out.vals : \A j \in Chans(in) :
               LET e == Emission(in.src, in.g, in.lam[j]) o == out.vals[n][j]
               IN CNan(o) \/ CNear(CScale(in.sign[n] * S, o), e, Tol(in))])
(* ---- priors ---- *)
Free(out) == {out.keys[k].name : k \in DOMAIN out.keys}
KeyOf(out, n) == CHOOSE r \in {out.keys[k] : k \in DOMAIN out.keys} : r.name = n
Pre(n, s) == n \in s
PolKeys == {"fracPol", "fracPol1", "fracPol2", "fracPol3"}
AngKeys == {"psi0_deg", "psi01_deg", "psi02_deg", "psi03_deg"}
RmKeys == {"RM_radm2", "RM1_radm2", "RM2_radm2", "RM3_radm2", "RM_screen"}
PriorEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET P == ParsOf[in.model]
        K == {out.keys[k] : k \in DOMAIN out.keys}
        has == Free(out) = P
    IN Broken([
        NamesOnce |-> has /\ Len(out.keys) = Cardinality(P) /\ {out.used[k] : k \in DOMAIN out.used} = P,
        Bounds |-> \A r \in K : /\ r.min < r.max
                                /\ r.name \in PolKeys => r.min = 0 /\ r.max <= 1000
                                /\ r.name \in AngKeys => r.min = 0 /\ r.max = 180000
                                /\ r.name \in RmKeys => r.min = -r.max
                                /\ r.name \notin (PolKeys \cup AngKeys \cup RmKeys) => r.min = 0,
        Wraps |-> \A r \in K : (r.name \in AngKeys) <=> (r.wrap = "periodic"),
        Labels |-> \A a, b \in DOMAIN out.keys : out.keys[a].label # "" /\ (a # b => out.keys[a].label # out.keys[b].label),
        Draws |-> \A d \in DOMAIN out.draws : \A n \in P : has =>
                    out.draws[d][n] >= KeyOf(out, n).min /\ out.draws[d][n] <= KeyOf(out, n).max,
        Constraints |-> has => \A d \in DOMAIN out.draws : LET v == out.draws[d] IN
                    CASE in.model \in {3, 4, 6, 11} -> v.fracPol1 + v.fracPol2 <= 1002 /\ v.RM1_radm2 + 2 >= v.RM2_radm2
                      [] in.model = 111 -> v.fracPol1 + v.fracPol2 + v.fracPol3 <= 1003 /\ v.RM1_radm2 + 2 >= v.RM2_radm2 /\ v.RM2_radm2 + 2 >= v.RM3_radm2
                      [] OTHER -> TRUE,
        Reach |-> NComp(in.model) = 1 \/ out.spread])
Verdict(ev) == CASE ev.op = "value" -> ValueEv(ev.in, ev.out)
                 [] ev.op = "alike" -> AlikeEv(ev.in, ev.out)
                 [] ev.op = "prior" -> PriorEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
