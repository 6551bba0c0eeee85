------------------------------ MODULE FitCube -------------------------------
(* Stokes I models of a cube: a source mask chooses the pixels, which are fitted     *)
(* one by one by a pool (tasks cut into chunks, taken by workers, finished in any    *)
(* order, gathered by submission index), written to maps; then the maps are read,    *)
(* every pixel is moved to a new reference frequency by a second pool, and written    *)
(* to new maps.  A model is <<pixel, reference, order>>: the spectrum it describes    *)
(* is that of its pixel, whatever the reference.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NPix, Chunks, Workers, Orders, Emit
VARIABLES src, useMask, order, maxord, chunk, stage, queue, busy, delivered, hist, maps, newmaps
vars == <<src, useMask, order, maxord, chunk, stage, queue, busy, delivered, hist, maps, newmaps>>
Pix == 1..NPix
W == 1..Workers
Blank == <<0, "blank", 0>>
Old == "old"
New == "new"
(* the spectra: the order the data of a pixel ask for, if the order is chosen by pixel *)
Fit(p) == <<p, Old, IF maxord < 0 THEN order[p] ELSE maxord>>
Selected == IF useMask THEN {p \in Pix : src[p]} ELSE Pix
(* tasks in reverse raster order, as the code lists them; any fixed order will do *)
TaskSeq(set) == LET RECURSIVE T(_, _)
                    T(p, acc) == IF p = 0 THEN acc ELSE T(p - 1, IF p \in set THEN Append(acc, p) ELSE acc)
                IN T(NPix, <<>>)
Tasks == IF stage \in {"fit", "write"} THEN TaskSeq(Selected) ELSE TaskSeq(Pix)
NChunk == (Len(Tasks) + chunk - 1) \div chunk
Members(k) == {i \in 1..Len(Tasks) : ((i - 1) \div chunk) + 1 = k}
Move(m) == IF m = Blank THEN Blank ELSE <<m[1], New, m[3]>>
Result(i) == IF stage = "fit" THEN Fit(Tasks[i]) ELSE Move(maps[Tasks[i]])

Init == /\ src \in [Pix -> BOOLEAN] /\ useMask \in BOOLEAN /\ maxord \in {2, -2}
        /\ order \in [Pix -> Orders] /\ (maxord > 0 => order = [p \in Pix |-> 2])
        /\ chunk \in Chunks
        /\ stage = "fit" /\ queue = 1 /\ busy = [w \in W |-> 0] /\ delivered = [k \in {} |-> 0] /\ hist = <<>>
        /\ maps = [p \in Pix |-> <<0, "unset", 0>>] /\ newmaps = [p \in Pix |-> <<0, "unset", 0>>]
Running == stage \in {"fit", "move"}
Take(w) == /\ Running /\ busy[w] = 0 /\ queue <= NChunk
           /\ busy' = [busy EXCEPT ![w] = queue] /\ queue' = queue + 1
           /\ UNCHANGED <<src, useMask, order, maxord, chunk, stage, delivered, hist, maps, newmaps>>
Done(w) == /\ Running /\ busy[w] # 0
           /\ delivered' = delivered @@ (busy[w] :> [i \in Members(busy[w]) |-> Result(i)])
           /\ hist' = IF stage = "fit" THEN Append(hist, busy[w]) ELSE hist
           /\ busy' = [busy EXCEPT ![w] = 0]
           /\ UNCHANGED <<src, useMask, order, maxord, chunk, stage, queue, maps, newmaps>>
Gathered(i) == delivered[((i - 1) \div chunk) + 1][i]
Position(p) == CHOOSE i \in 1..Len(Tasks) : Tasks[i] = p
Gather == /\ Running /\ Cardinality(DOMAIN delivered) = NChunk
          /\ LET out == [p \in Pix |-> IF p \in {Tasks[i] : i \in 1..Len(Tasks)} THEN Gathered(Position(p)) ELSE Blank] IN
             IF stage = "fit" THEN maps' = out /\ UNCHANGED newmaps ELSE newmaps' = out /\ UNCHANGED maps
          /\ stage' = IF stage = "fit" THEN "move" ELSE "done"
          /\ queue' = 1 /\ delivered' = [k \in {} |-> 0]
          /\ UNCHANGED <<src, useMask, order, maxord, chunk, busy, hist>>
Next == (\E w \in W : Take(w) \/ Done(w)) \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Fitted == stage \in {"move", "done"}
(* each selected pixel has the fit of its own spectrum, the others are blank *)
PixelOwnsFit == Fitted => \A p \in Pix : maps[p] = IF p \in Selected THEN Fit(p) ELSE Blank
(* a new reference changes neither the pixel's spectrum nor its order, and blank stays blank *)
SpectrumKept == stage = "done" => \A p \in Pix : newmaps[p][1] = maps[p][1] /\ newmaps[p][3] = maps[p][3]
ReferenceMoved == stage = "done" => \A p \in Pix : newmaps[p][2] = IF p \in Selected THEN New ELSE "blank"
Finishes == <>(stage = "done")
EmitCase == (Emit /\ stage = "done") =>
   CSVWrite("%1$s", <<ToJson([src |-> src, mask |-> useMask, ord |-> order, max |-> maxord, chunk |-> chunk, order |-> hist])>>, IOEnv.CASES)
=============================================================================
