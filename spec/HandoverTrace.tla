--------------------------- MODULE HandoverTrace ----------------------------
(* Recorded sessions (op "session") and recorded hand-overs (op "handover").      *)
EXTENDS Handover, MeasureFDF, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rel(a, b, tol, ppm) == a = b \/ (IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000)
SameArr(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k][1], b[k][1], tol) /\ Same(a[k][2], b[k][2], tol)

(* ---- sessions: out.ref.syn[s], out.ref.cl[s]: fingerprints of the results of spectrum s;     *)
(* out.obs[i]: fingerprints found after operation i: mem, cl, syn[p], clf[p] (empty: nothing)   *)
Finger(ref, id) == IF id = 0 THEN <<>> ELSE ref[id]
RECURSIVE After(_, _, _)
After(ops, n, P) == IF n = 0 THEN Start(P) ELSE Apply(After(ops, n - 1, P), ops[n])
SameF(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k], tol)
Session(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET P == 1..2
        ok(i) == LET s == After(in.ops, i, P) o == out.obs[i] IN
            [ MemoryHeld |-> SameF(o.mem, Finger(out.ref.syn, s.mem), 40) /\ SameF(o.cl, Finger(out.ref.cl, s.cl), 40),
              SynthesisFiles |-> \A p \in P : SameF(o.syn[p], Finger(out.ref.syn, s.syn[p]), 40),
              CleanFiles |-> \A p \in P : SameF(o.clf[p], Finger(out.ref.cl, s.clf[p]), 40) ]
    IN UNION {Broken(ok(i)) : i \in DOMAIN in.ops} \cup Broken([Distinct |-> ~SameF(out.ref.syn[1], out.ref.syn[2], 40)])

(* key, six digit mantissa, exponent, text *)
NumEq(a, b) == \/ (a[3] = b[3] /\ Abs(a[2] - b[2]) <= 3)
               \/ (a[3] = b[3] + 1 /\ Abs(a[2]) <= 100003 /\ Abs(b[2]) >= 999996)
               \/ (b[3] = a[3] + 1 /\ Abs(b[2]) <= 100003 /\ Abs(a[2]) >= 999996)
SameMeas(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k][1] = b[k][1] /\ a[k][4] = b[k][4] /\ NumEq(a[k], b[k])
(* ---- one hand-over, in numbers ---- *)
(* written contents: wX, in memory: mX, read back: rX                                *)
Handover1(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET tol == in.tol
        maxr == MaxSeq(out.resamp)
    IN Broken([
        FdfStored |-> SameArr(out.rfdf, out.mfdf, 2) /\ out.rphi = out.mphi,
        RmsfStored |-> SameArr(out.rrmsf, out.mrmsf, 2) /\ out.rphi2 = out.mphi2,
        WeightsStored |-> out.rwt = out.mwt /\ out.rfreq = out.mfreq,
        MeasurementsStored |-> SameMeas(out.rmeas, out.mmeas) /\ SameMeas(out.dat, out.mmeas),
        CleanOfFilesIsCleanOfMemory |-> SameArr(out.fclean, out.clean, tol) /\ SameArr(out.fcc, out.cc, tol)
                                        /\ SameArr(out.fres, out.res, tol) /\ out.fiter = out.iter,
        (* cutoff over noise * 1000, or absolute at scale 10^5 *)
        CutoffMeaning |-> Rel(out.cutused, IF in.cut < 0 THEN -10 * in.cut ELSE out.cutgiven, 2, 100),
        SigmaEqualsAbsolute |-> SameArr(out.aclean, out.clean, tol) /\ SameArr(out.acc, out.cc, tol) /\ out.aiter = out.iter,
        StopsBelowCutoff |-> (out.iter < in.limit /\ in.win = 0) => maxr <= out.cut5 + 1,
        NotTooFar |-> (out.iter > 0 /\ in.win = 0) => MaxSeq(out.prevamp) >= out.cut5 - 1,
        WindowUsed |-> (in.win # 0 /\ out.iter < in.limit) => \A k \in DOMAIN out.resamp : (out.near[k] = 1 => out.resamp[k] <= out.win5 + 1),
        LimitKept |-> out.iter <= in.limit,
        GainUsed |-> out.iter1 = 0 \/ Rel(out.cc1, (out.top * in.gain) \div 100, 4, 200),
        ReportedIterations |-> out.niter = out.iter,
        MeasuredOnClean |-> PeakAgrees(out.camp, [k \in DOMAIN out.camp |-> k - 1 - in.half], out.peak, out.pamp),
        ObservedErrors |-> \A k \in DOMAIN out.obs : out.obs[k][2] = NaN \/ Rel(out.obs[k][1], out.obs[k][2], 2, 500),
        CleanFilesHoldArrays |-> SameArr(out.wclean, out.clean, 2) /\ SameArr(out.wcc, out.cc, 2) /\ out.wphi = out.mphi,
        CleanMeasurementsStored |-> SameMeas(out.wjson, out.wmeas) /\ SameMeas(out.wdat, out.wmeas),
        (* the dictionary handed back names the grid and the channels of the input *)
        ArraysNamed |-> out.aphi = out.mphi /\ out.afreq = out.mfreq,
        ToolCleansFiles |-> in.s.nbits = 32 => (SameArr(out.tclean, out.fclean, tol) /\ SameArr(out.tcc, out.fcc, tol) /\ out.titer = out.fiter),
        InputsUnmodified |-> out.untouched ])
Judge(ev) == CASE ev.op = "session" -> Session(ev.in, ev.out)
               [] ev.op = "handover" -> Handover1(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
