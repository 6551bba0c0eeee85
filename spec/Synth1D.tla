------------------------------ MODULE Synth1D -------------------------------
(* One-dimensional RM synthesis as a pipeline of stages that share one list of    *)
(* channels.  Every stage derives for itself which channels it may use; the        *)
(* guarantee is that they all arrive at the same set.                               *)
EXTENDS RMSynth
(* a channel: q, u data (NaN = flagged), s noise code (0 = NaN or infinite, n = relative weight) *)
Usable(in, j) == in.q[j] # NaN /\ in.u[j] # NaN /\ in.w[j] > 0
UsedSet(in) == {j \in DOMAIN in.lam : Usable(in, j)}
UW(in) == [j \in DOMAIN in.lam |-> IF Usable(in, j) THEN in.w[j] ELSE 0]
Ref1(in) == IF in.super = 1 THEN [num |-> 0, den |-> 1] ELSE Lam0(UW(in), in.lam)
Q1(in) == [x \in {1} |-> in.q]
U1(in) == [x \in {1} |-> in.u]
=============================================================================
