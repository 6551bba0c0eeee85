---------------------------- MODULE RMCleanTrace ----------------------------
(* Recorded RM-CLEAN runs against the machine of RMClean.                        *)
(* "history": steps[n+1] is the state after at most n iterations (the limit was  *)
(* raised one by one), so consecutive entries are one transition or a halt.      *)
EXTENDS RMClean, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NoWin == 2000000
VARIABLES l, n, stage, win
vars == <<l, n, stage, win>>

AmpMax(st, Z) == IF Z = {} THEN -1 ELSE LET RECURSIVE M(_) M(i) == IF i = 0 THEN -1 ELSE Max2(M(i - 1), IF i \in Z THEN st.amp[i] ELSE -1) IN M(Len(st.amp))
Idx(ev) == DOMAIN ev.in.dirty
Changed(a, b) == {i \in DOMAIN a.cc : a.cc[i] # b.cc[i]}
NearSeq(a, b, t) == Len(a) = Len(b) /\ \A k \in DOMAIN a : CNear(a[k], b[k], t)
Tol(it) == 4 + 4 * it
ConservedIn(in, st) == \A k \in DOMAIN in.dirty :
        CNear(in.dirty[k], CAdd(st.resid[k], Model(st.cc, in.r, in.c, k)), Tol(st.iter))
RestoredIn(in, st) == in.f = 0 \/ \A k \in DOMAIN in.dirty :
        CNear(st.clean[k], CAdd(st.resid[k], Restored(st.cc, in.f, k)), Tol(st.iter))

(* verdicts of the stages at state st: TRUE / FALSE / "either" (rounding) *)
Cmp(m, thr, exact) == IF exact THEN (IF m >= thr THEN "yes" ELSE "no")
                      ELSE IF m >= thr + 4 THEN "yes" ELSE IF m <= thr - 4 THEN "no" ELSE "either"
MainV(ev, st) == Cmp(AmpMax(st, Idx(ev)), ev.in.cutoff, st.iter = 0)

(* one observed transition a -> b *)
StepClauses(ev, a, b, zone, what) ==
    LET ch == Changed(a, b) IN
    IF Cardinality(ch) # 1 THEN {"OneComponentPerIteration"} ELSE
    LET i == CHOOSE x \in ch : TRUE
        comp == CSub(b.cc[i], a.cc[i])
    IN Broken([ ComponentIsGainTimesPeak |-> CNear(comp, Component(a.resid, i, ev.in.gain), 4),
                PeakChoice |-> i \in zone.may /\ a.amp[i] >= AmpMax(a, zone.must) - 4,
                SubtractShiftedRMSF |-> NearSeq(b.resid, AfterResid(a.resid, ev.in.r, ev.in.c, i, comp), 6),
                IterationCount |-> b.iter = a.iter + 1 ])
HaltClauses(a, b) == Broken([ NoHiddenIteration |-> b.iter = a.iter /\ b.cc = a.cc /\ b.resid = a.resid /\ b.clean = a.clean ])

StateClauses(ev, st, lim) ==
    Broken([ Conservation |-> ConservedIn(ev.in, st),
             RestoredSum |-> RestoredIn(ev.in, st),
             IterationLimit |-> st.iter <= lim /\ st.iter >= 0,
             (* below the cutoff: returned untouched *)
             Untouched |-> st.iter = 0 => st.resid = ev.in.dirty /\ \A i \in DOMAIN st.cc : st.cc[i] = <<0, 0>> ])

WindowOf(ev, st) == [may |-> MayWindow(st.cc, ev.in.f2), must |-> MustWindow(st.cc, ev.in.f2)]
All(ev) == [may |-> Idx(ev), must |-> Idx(ev)]

(* stage transition: returns [stage, win, bad] for the observed pair (a, b) *)
Judge(ev, a, b) ==
    LET advanced == b.iter # a.iter
        main == IF stage = "main" THEN MainV(ev, a) ELSE "no"
        w == IF stage = "main" THEN WindowOf(ev, a) ELSE win
        wv == IF ev.in.window = NoWin \/ w.must = {} THEN
                  (IF ev.in.window = NoWin \/ w.may = {} THEN "no" ELSE Cmp(AmpMax(a, w.may), ev.in.window, FALSE))
              ELSE IF Cmp(AmpMax(a, w.must), ev.in.window, FALSE) = "yes" THEN "yes"
              ELSE IF Cmp(AmpMax(a, w.may), ev.in.window, FALSE) = "no" THEN "no" ELSE "either"
    IN IF main = "either" THEN [stage |-> "skip", win |-> win, bad |-> {}]
       ELSE IF main = "yes" THEN
            [stage |-> "main", win |-> win,
             bad |-> IF advanced THEN StepClauses(ev, a, b, All(ev), "main") ELSE {"CutoffNotReached"}]
       ELSE IF wv = "either" THEN [stage |-> "skip", win |-> w, bad |-> {}]
       ELSE IF wv = "yes" THEN
            [stage |-> "win", win |-> w,
             bad |-> IF advanced THEN StepClauses(ev, a, b, w, "win") ELSE {"WindowNotReached"}]
       ELSE [stage |-> "win", win |-> w,
             bad |-> IF advanced THEN {"IteratesBelowThreshold"} ELSE HaltClauses(a, b)]

(* a spread function with strong sidelobes can make CLEAN diverge: stop judging before  *)
(* the fixed point range is left (one iteration at most doubles a residual)             *)
Large(st, lim) == \E k \in DOMAIN st.amp : st.amp[k] > lim \/ Abs(st.cc[k][1]) > lim \/ Abs(st.cc[k][2]) > lim
JudgeR(ev, a, b) == IF stage = "skip" \/ Large(a, 700000) THEN [stage |-> "skip", win |-> win, bad |-> {}]
                    ELSE IF Large(b, 1500000) THEN [stage |-> "skip", win |-> win, bad |-> {"ComponentIsGainTimesPeak"}]
                    ELSE Judge(ev, a, b)
NoWindow == [may |-> {}, must |-> {}]
Shape(ev) == ev.out.exc = "" /\ ev.out.shape
HistStart(ev) == ev.op = "history" /\ Shape(ev) /\ n = 0
HistNext(ev) == ev.op = "history" /\ Shape(ev) /\ n > 0 /\ n < Len(ev.out.steps)
HistEnd(ev) == ev.op = "history" /\ Shape(ev) /\ n > 0 /\ n >= Len(ev.out.steps)

(* cubes: several pixels, each with its own RMSF and width, one final state each *)
PixIn(ev, p) == [dirty |-> ev.in.pix[p].dirty, r |-> ev.in.pix[p].r, c |-> ev.in.c, f |-> ev.in.pix[p].f]
Blank(d) == d[1][1] = NaN
Final(in, cutoff, st, msk, limit) ==
    IF Blank(in.dirty) \/ msk = 0 \/ (\A k \in DOMAIN in.dirty : in.amp0[k] < cutoff) THEN
        Broken([Untouched |-> st.iter = 0 /\ st.resid = in.dirty /\ st.clean = in.dirty
                              /\ \A i \in DOMAIN st.cc : st.cc[i] = <<0, 0>>])
    ELSE Broken([Conservation |-> ConservedIn(in, st),
                 RestoredSum |-> RestoredIn(in, st),
                 IterationLimit |-> st.iter >= Min2(1, limit) /\ st.iter <= limit,
                 CutoffReached |-> st.iter = limit \/ AmpMax(st, DOMAIN in.dirty) < cutoff + 4])
Cube(ev) == UNION { Final(PixIn(ev, p) @@ [amp0 |-> ev.in.pix[p].amp0], ev.in.cutoff, ev.out.pix[p], ev.in.msk[p], ev.in.limit) : p \in DOMAIN ev.in.pix }
            \cup Broken([InputsUnmodified |-> ev.out.untouched])
(* pools: what each pixel got in the cube is what it gets alone *)
SameState(a, b) == a.iter = b.iter /\ NearSeq(a.resid, b.resid, 2) /\ NearSeq(a.clean, b.clean, 2) /\ NearSeq(a.cc, b.cc, 2)
EqState(a, b) == a.iter = b.iter /\ (a = b \/ SameState(a, b))
Pool(ev) == Broken([
        SameAsAlone |-> \A p \in DOMAIN ev.out.solo : \A s \in DOMAIN ev.out.runs :
              ev.out.runs[s][p].resid = ev.out.solo[p].resid /\ ev.out.runs[s][p].cc = ev.out.solo[p].cc
              /\ ev.out.runs[s][p].clean = ev.out.solo[p].clean,
        IterationCount |-> \A p \in DOMAIN ev.out.solo : \A s \in DOMAIN ev.out.runs : ev.out.runs[s][p].iter = ev.out.solo[p].iter,
        EachPixelOnce |-> \A s \in DOMAIN ev.out.tasks : ev.out.tasks[s] = -1 \/ ev.out.tasks[s] <= Len(ev.out.solo),
        InputsUnmodified |-> ev.out.untouched])

Single(ev) == IF ~Shape(ev) THEN (IF ev.out.exc # "" THEN {"NoException"} ELSE {"Shape"})
              ELSE CASE ev.op = "cube" -> Cube(ev) [] ev.op = "pool" -> Pool(ev) [] OTHER -> {"UnknownEvent"}

Init == l = 1 /\ n = 0 /\ stage = "main" /\ win = NoWindow
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           \/ HistStart(ev) /\ Report(l, StateClauses(ev, ev.out.steps[1], 0) \cup Broken([InputsUnmodified |-> ev.out.untouched]))
                /\ n' = 1 /\ stage' = "main" /\ win' = NoWindow /\ l' = l
           \/ HistNext(ev) /\ LET a == ev.out.steps[n] b == ev.out.steps[n + 1] j == JudgeR(ev, a, b) IN
                /\ Report(l, j.bad \cup (IF j.stage = "skip" THEN {} ELSE StateClauses(ev, b, n)))
                /\ stage' = j.stage /\ win' = j.win /\ n' = n + 1 /\ l' = l
           \/ HistEnd(ev) /\ l' = l + 1 /\ n' = 0 /\ stage' = "main" /\ win' = NoWindow
           \/ (ev.op # "history" \/ ~Shape(ev)) /\ Report(l, Single(ev)) /\ l' = l + 1 /\ UNCHANGED <<n, stage, win>>
Spec == Init /\ [][Next]_vars
RECURSIVE StepsTo(_)
StepsTo(i) == IF i = 0 THEN 0 ELSE StepsTo(i - 1) + (IF Trace[i].op = "history" /\ Shape(Trace[i]) THEN Len(Trace[i].out.steps) + 1 ELSE 1)
Accepted == TLCGet("stats").diameter - 1 = StepsTo(Len(Trace))
=============================================================================
