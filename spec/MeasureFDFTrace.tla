--------------------------- MODULE MeasureFDFTrace --------------------------
(* Recorded calls of measure_FDF_parms.                                          *)
EXTENDS PeakRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Measure(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    PeakBroken(in, out) \cup Broken([InputsUnmodified |-> out.untouched])

Judge(ev) == CASE ev.op = "measure" -> Measure(ev.in, ev.out) [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
