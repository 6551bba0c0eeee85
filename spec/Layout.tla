------------------------------- MODULE Layout -------------------------------
(* How a cube tool must carry a FITS cube through an array computation that wants     *)
(* the spectral axis first: read (numpy order is the reverse of FITS order), move the  *)
(* spectral axis to the front, drop axes of length one, compute (the spectral axis     *)
(* changes length and meaning), give the array its full dimensions back, move the      *)
(* spectral axis to its place, write.  Arrays are sequences of axes [t, n]; a reshape   *)
(* keeps the order of elements, so it is only faithful if the axes longer than one are  *)
(* the same before and after, in the same order.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS SizesX, SizesY, SizesF, Planes, Emit
VARIABLES hdr, arr, stage, ok
vars == <<hdr, arr, stage, ok>>
(* FITS orders: longitude before latitude, spectral and Stokes axes anywhere *)
Orders == {o \in UNION {[1..n -> {"x", "y", "f", "s"}] : n \in {3, 4}} :
             /\ \A t \in {"x", "y", "f"} : Cardinality({i \in DOMAIN o : o[i] = t}) = 1
             /\ Cardinality({i \in DOMAIN o : o[i] = "s"}) = Len(o) - 3
             /\ (CHOOSE i \in DOMAIN o : o[i] = "x") < (CHOOSE i \in DOMAIN o : o[i] = "y")}
Lens(o, nx, ny, nf) == [i \in DOMAIN o |-> [t |-> o[i], n |-> CASE o[i] = "x" -> nx [] o[i] = "y" -> ny [] o[i] = "f" -> nf [] OTHER -> 1]]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Long(s) == SelectSeq(s, LAMBDA a : a.n > 1)
Pos(s, t) == CHOOSE i \in DOMAIN s : s[i].t = t
Without(s, t) == SelectSeq(s, LAMBDA a : a.t # t)
(* the spectral axis at position k of the others *)
Insert(s, k, a) == [i \in 1..(Len(s) + 1) |-> IF i < k THEN s[i] ELSE IF i = k THEN a ELSE s[i - 1]]
Init == /\ \E o \in Orders, nx \in SizesX, ny \in SizesY, nf \in SizesF : hdr = Lens(o, nx, ny, nf)
        /\ arr = Rev(hdr) /\ stage = "read" /\ ok = TRUE
MoveFirst == stage = "read" /\ arr' = <<arr[Pos(arr, "f")]>> \o Without(arr, "f") /\ stage' = "first" /\ UNCHANGED <<hdr, ok>>
Squeeze == stage = "first" /\ arr' = <<arr[1]>> \o Long(Tail(arr)) /\ stage' = "squeezed" /\ UNCHANGED <<hdr, ok>>
Compute == /\ stage \in {"first", "squeezed"} /\ stage' = "computed"
           /\ \E n \in Planes : arr' = <<[t |-> "p", n |-> n]>> \o Tail(arr)
           /\ UNCHANGED <<hdr, ok>>
Restore == /\ stage = "computed" /\ stage' = "restored"
           /\ LET target == <<arr[1]>> \o Without(Rev(hdr), "f")
              IN arr' = target /\ ok' = (ok /\ Long(target) = Long(arr))
           /\ UNCHANGED hdr
MoveBack == /\ stage = "restored" /\ stage' = "write"
            /\ arr' = Insert(Tail(arr), Pos(Rev(hdr), "f"), arr[1]) /\ UNCHANGED <<hdr, ok>>
Next == MoveFirst \/ Squeeze \/ Compute \/ Restore \/ MoveBack
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Faithful == ok
(* what is written has the axes of the header, the spectral one replaced *)
InPlace == stage = "write" => \A i \in DOMAIN hdr : LET a == Rev(arr)[i] IN
               IF hdr[i].t = "f" THEN a.t = "p" ELSE a = hdr[i]
(* sky positions: longitude stays before latitude in FITS order at every stage *)
SkyOrder == (\E i \in DOMAIN arr : arr[i].t = "x") /\ (\E i \in DOMAIN arr : arr[i].t = "y") => Pos(arr, "y") < Pos(arr, "x")
EmitCase == (Emit /\ stage = "read") => CSVWrite("%1$s", <<ToJson([ax |-> hdr])>>, IOEnv.CASES)
=============================================================================
