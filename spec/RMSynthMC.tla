----------------------------- MODULE RMSynthMC ------------------------------
(* The synthesis machine, explored exhaustively for small constants.  Final      *)
(* states are emitted as behaviours to be replayed on the real code.             *)
EXTENDS RMSynth, Json, CSV, IOUtils
CONSTANTS NPix, Lams, Phis, G, WDom, VDom, Emit
(* voxel values by name *)
VQ(v) == CASE v = "flag" -> NaN [] v = "one" -> 1 [] v = "i" -> 0 [] v = "zero" -> 0 [] v = "half" -> NaN [] v = "m" -> -1
VU(v) == CASE v = "flag" -> NaN [] v = "one" -> 0 [] v = "i" -> 1 [] v = "zero" -> 0 [] v = "half" -> 1 [] v = "m" -> -1
LamSeq == Lams
LamsQ == <<10, 13>>
LamsT == <<10, 11, 14>>
PhisQ == <<-3, -1, 0, 2>>
WDomQ == {0, 1, 3, NaN}
WDomF == {0, 2, 3}
WDomT == {0, 1, 2}
NCh == Len(LamSeq)
Pix == 1..NPix
VARIABLES pc, chans, todo, accRe, accIm, ks
vars == <<pc, chans, todo, accRe, accIm, ks>>

W == [j \in 1..Len(chans) |-> chans[j].w]
Q == [p \in Pix |-> [j \in 1..Len(chans) |-> VQ(chans[j].v[p])]]
U == [p \in Pix |-> [j \in 1..Len(chans) |-> VU(chans[j].v[p])]]
WE == WEff(W, Q, U)
L0 == Lam0(WE, LamSeq)
Zero == [p \in Pix |-> [k \in 1..Len(Phis) |-> 0]]

Init == pc = "record" /\ chans = <<>> /\ todo = {} /\ accRe = Zero /\ accIm = Zero /\ ks = [p \in Pix |-> 0]

Record == /\ pc = "record" /\ Len(chans) < NCh
          /\ \E w \in WDom, v \in [Pix -> VDom] : chans' = Append(chans, [w |-> w, v |-> v])
          /\ UNCHANGED <<pc, todo, accRe, accIm, ks>>
(* first pass: plane flags, global weights and lambda0^2 are now determined *)
Weigh == /\ pc = "record" /\ Len(chans) = NCh
         /\ pc' = "sum" /\ todo' = 1..NCh
         /\ UNCHANGED <<chans, accRe, accIm, ks>>
(* second pass: planes may be summed in any order *)
Accumulate(j) ==
         /\ pc = "sum" /\ j \in todo
         /\ todo' = todo \ {j}
         /\ accRe' = [p \in Pix |-> [k \in 1..Len(Phis) |->
                accRe[p][k] + TermRe(WE, Q, U, p, j, Phase(G, Phis[k], LamSeq[j], L0))]]
         /\ accIm' = [p \in Pix |-> [k \in 1..Len(Phis) |->
                accIm[p][k] + TermIm(WE, Q, U, p, j, Phase(G, Phis[k], LamSeq[j], L0))]]
         /\ ks' = [p \in Pix |-> ks[p] + (IF Flagged(Q, U, p, j) THEN 0 ELSE WE[j])]
         /\ UNCHANGED <<pc, chans>>
Normalise ==
         /\ pc = "sum" /\ todo = {}
         /\ pc' = "out"
         /\ accRe' = [p \in Pix |-> [k \in 1..Len(Phis) |-> IF Blank(WE, Q, U, p) THEN NaN ELSE RDiv(accRe[p][k], ks[p])]]
         /\ accIm' = [p \in Pix |-> [k \in 1..Len(Phis) |-> IF Blank(WE, Q, U, p) THEN NaN ELSE RDiv(accIm[p][k], ks[p])]]
         /\ UNCHANGED <<chans, todo, ks>>
Next == Record \/ Weigh \/ (\E j \in todo : Accumulate(j)) \/ Normalise
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Out == pc = "out"
(* any order of summation gives the closed form *)
ClosedForm == Out => \A p \in Pix, k \in 1..Len(Phis) :
    /\ accRe[p][k] = FDFRe(WE, LamSeq, Q, U, p, G, Phis[k], L0)
    /\ accIm[p][k] = FDFIm(WE, LamSeq, Q, U, p, G, Phis[k], L0)
(* deleting the flagged channels of a pixel gives the same spectrum for the same lambda0^2 *)
Keep(p) == SelectSeq([j \in 1..NCh |-> j], LAMBDA j : ~Flagged(Q, U, p, j))
FlagIsDelete == Out => \A p \in Pix : LET kp == Keep(p)
        wr == [i \in 1..Len(kp) |-> WE[kp[i]]]
        lr == [i \in 1..Len(kp) |-> LamSeq[kp[i]]]
        qr == [x \in {1} |-> [i \in 1..Len(kp) |-> Q[p][kp[i]]]]
        ur == [x \in {1} |-> [i \in 1..Len(kp) |-> U[p][kp[i]]]]
    IN \A k \in 1..Len(Phis) : Len(kp) > 0 =>
          /\ accRe[p][k] = FDFRe(wr, lr, qr, ur, 1, G, Phis[k], L0)
          /\ accIm[p][k] = FDFIm(wr, lr, qr, ur, 1, G, Phis[k], L0)
(* a spectrum of unit amplitude never exceeds its largest amplitude (1, or sqrt 2 with "m") *)
Bounded == Out => \A p \in Pix, k \in 1..Len(Phis) : accRe[p][k] # NaN =>
    (accRe[p][k] \div 10) * (accRe[p][k] \div 10) + (accIm[p][k] \div 10) * (accIm[p][k] \div 10) <= 2 * 10000 * 10000 + 200000
(* at depth zero the phases vanish: the weighted mean of the data *)
ZeroDepth == Out => \A p \in Pix, k \in 1..Len(Phis) : (Phis[k] = 0 /\ accRe[p][k] # NaN) =>
    accRe[p][k] = RDiv(TS * SumF(LAMBDA j : IF Flagged(Q, U, p, j) THEN 0 ELSE WE[j] * Q[p][j], NCh), ks[p])
(* lambda0^2 lies within the channels that carry weight *)
Lam0Inside == Out => (SumW(WE) > 0 =>
    /\ \E j \in 1..NCh : WE[j] > 0 /\ LamSeq[j] * L0.den <= L0.num
    /\ \E j \in 1..NCh : WE[j] > 0 /\ LamSeq[j] * L0.den >= L0.num)
(* the RMSF of the mask: 1 at zero depth, conjugate symmetric, bounded *)
Msk == [p \in Pix |-> [j \in 1..NCh |-> IF Flagged(Q, U, p, j) THEN 1 ELSE 0]]
RmsfFacts == Out => \A p \in Pix : LET we == MWEff(W, Msk) IN MK(we, Msk, p) > 0 =>
    \A k \in 1..Len(Phis) :
       LET re == RMSFRe(we, LamSeq, Msk, p, G, Phis[k], L0)
           im == RMSFIm(we, LamSeq, Msk, p, G, Phis[k], L0)
       IN /\ (Phis[k] = 0 => re = TS /\ im = 0)
          /\ Abs(RMSFRe(we, LamSeq, Msk, p, G, -Phis[k], L0) - re) <= 1
          /\ Abs(RMSFIm(we, LamSeq, Msk, p, G, -Phis[k], L0) + im) <= 1
          /\ (re \div 10) * (re \div 10) + (im \div 10) * (im \div 10) <= 10000 * 10000 + 30000
(* a Faraday-thin source at depth Phis[k0] is recovered at that depth with full amplitude;
   data e^{2 i phi0 lam} exist on the voxel alphabet only for phase multiples of 90 degrees *)
EmitCase == (Emit /\ Out) =>
    CSVWrite("%1$s", <<ToJson([w |-> W, lam |-> LamSeq, q |-> Q, u |-> U, phi |-> Phis, g |-> G])>>, IOEnv.CASES)
=============================================================================
