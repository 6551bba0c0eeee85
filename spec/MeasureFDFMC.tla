---------------------------- MODULE MeasureFDFMC ----------------------------
(* Every amplitude pattern of a small spectrum: the measurement moves with the    *)
(* depth axis, scales with the amplitude and stays next to the strongest sample.  *)
EXTENDS MeasureFDF, Json, CSV, IOUtils
CONSTANTS N, MaxAmp, Steps, Shifts, Emit
VARIABLES amp, step, shift, scale
vars == <<amp, step, shift, scale>>
Phi(st, sh) == [k \in 1..N |-> (k - 1 - (N \div 2)) * st + sh]
Init == amp \in [1..N -> 0..MaxAmp] /\ step \in Steps /\ shift = 0 /\ scale = 1
Shift == shift = 0 /\ shift' \in Shifts /\ UNCHANGED <<amp, step, scale>>
Scale == scale = 1 /\ scale' \in {2, 5} /\ amp' = [k \in 1..N |-> scale' * amp[k]] /\ UNCHANGED <<step, shift>>
Next == Shift \/ Scale
Spec == Init /\ [][Next]_vars
P == Phi(step, shift)
MoveWithAxis == [][ \A i \in Peaks(amp) : ~Flat(amp, P, i) =>
      (scale' = scale => VertexPhi(amp, P, i)' = VertexPhi(amp, P, i) + 1000 * (shift' - shift)
                         /\ VertexAmp(amp, P, i)' = VertexAmp(amp, P, i)) ]_vars
ScaleWithAmp == [][ \A i \in Peaks(amp) : ~Flat(amp, P, i) =>
      (shift' = shift => VertexPhi(amp, P, i)' = VertexPhi(amp, P, i)
                         /\ Abs(VertexAmp(amp, P, i)' * scale - VertexAmp(amp, P, i) * scale') <= 3 * scale * scale') ]_vars
(* a strict interior maximum: the vertex lies within half a step and is at least as high *)
Strict(i) == amp[i] >= amp[i - 1] /\ amp[i] >= amp[i + 1] /\ An(amp, P, i) # 0
NextToPeak == \A i \in Peaks(amp) : Strict(i) => /\ Abs(VertexPhi(amp, P, i) - 1000 * P[i]) <= 500 * step
                                                 /\ VertexAmp(amp, P, i) >= 1000 * amp[i]
Symmetric == \A i \in Peaks(amp) : (Strict(i) /\ amp[i - 1] = amp[i + 1]) => VertexPhi(amp, P, i) = 1000 * P[i] /\ VertexAmp(amp, P, i) = 1000 * amp[i]
HasPeak == Peaks(amp) # {}
EmitCase == (Emit /\ shift = 0 /\ scale = 1 /\ MaxSeq(amp) > 0) => CSVWrite("%1$s", <<ToJson([amp |-> amp, step |-> step])>>, IOEnv.CASES)
=============================================================================
