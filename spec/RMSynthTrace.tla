---------------------------- MODULE RMSynthTrace ----------------------------
(* Judges recorded calls of the synthesis and RMSF routines.                     *)
EXTENDS RMSynth, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* ev.in.l0: <<>> (computed) or <<num, den>> forced; ev.in.tol: tolerance at scale 10^5 *)
Ref(in, we) == IF Len(in.l0) = 2 THEN [num |-> in.l0[1], den |-> in.l0[2]] ELSE Lam0(we, in.lam)
PhaseDen(in, we) == IF Len(in.l0) = 2 THEN in.l0[2] ELSE (IF SumW(we) = 0 THEN 1 ELSE SumW(we))

SameC(o, re, im, tol) == Same(o[1], re, tol) /\ Same(o[2], im, tol)

FdfOk(in, fdf, we, l0) ==
    \A p \in DOMAIN in.q : \A k \in DOMAIN in.phi :
        SameC(fdf[p][k], FDFRe(we, in.lam, in.q, in.u, p, in.g, in.phi[k], l0),
                         FDFIm(we, in.lam, in.q, in.u, p, in.g, in.phi[k], l0), in.tol)

NanOk(in, fdf, we) == \A p \in DOMAIN in.q : \A k \in DOMAIN in.phi :
        (fdf[p][k][1] = NaN \/ fdf[p][k][2] = NaN) <=> Blank(we, in.q, in.u, p)

(* reference wavelength, logged as (lambda0^2 / unit) * den * 100 *)
Lam0Ok(in, out, we, l0) == IF SumW(we) = 0 /\ Len(in.l0) = 0 THEN out.lam0 = 0 ELSE Near(out.lam0, 100 * l0.num, in.l0tol)

Synth(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET we == WEff(in.w, in.q, in.u)
        l0 == Ref(in, we)
    IN Broken([BlankPixels |-> NanOk(in, out.fdf, we),
               FaradaySum |-> FdfOk(in, out.fdf, we, l0),
               ReferenceLambda |-> Lam0Ok(in, out, we, l0),
               ArgumentsUntouched |-> out.untouched])

(* the same spectra through several array layouts; out.fdfs is one result per layout *)
Layout(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET we == WEff(in.w, in.q, in.u)
        l0 == Ref(in, we)
    IN Broken([BlankPixels |-> \A n \in DOMAIN out.fdfs : NanOk(in, out.fdfs[n], we),
               FlaggedSum |-> \A n \in DOMAIN out.fdfs : FdfOk(in, out.fdfs[n], we, l0),
               LayoutIndependent |-> out.agree,
               ReferenceLambda |-> Lam0Ok(in, out, we, l0),
               ArgumentsUntouched |-> out.untouched])

(* ---- RMSF ---- *)
(* extension of the depth grid: half the length (rounded up) at both ends *)
Ext(n) == (n + 1) \div 2
Phi2(phi, double) ==
    IF double = 0 THEN phi
    ELSE LET n == Len(phi) e == Ext(n) IN
         [i \in 1..(n + 2 * e) |->
            IF i <= e THEN phi[1] - (e + 1 - i) * (phi[2] - phi[1])
            ELSE IF i <= e + n THEN phi[i - e]
            ELSE phi[n] + (i - e - n) * (phi[n] - phi[n - 1])]
(* half width at half maximum of the main lobe of one recorded RMSF, by linear
   interpolation, in 1/100 depth units; fit = 2 refers to the real part *)
Amp2(c, fit) == LET re == c[1] \div 100 im == c[2] \div 100
                IN IF fit = 2 THEN (IF re < 0 THEN 0 ELSE re * re) ELSE re * re + im * im
HalfWidth(r, ph, fit) ==
    LET i0 == CHOOSE i \in DOMAIN ph : ph[i] = 0
        c  == CHOOSE i \in DOMAIN ph : i > i0 /\ Amp2(r[i], fit) < 250000
                 /\ \A m \in i0..(i - 1) : Amp2(r[m], fit) >= 250000
        a  == Amp2(r[c - 1], fit)
        b  == Amp2(r[c], fit)
    IN 100 * ph[c - 1] + (((a - 250000) \div 10) * (100 * (ph[c] - ph[c - 1]))) \div Max2(1, (a - b) \div 10) 
(* the depths at which the sum is evaluated: all, or a sample of a long grid *)
Looked(in, ph) == IF "look" \in DOMAIN in THEN {in.look[k] : k \in DOMAIN in.look} ELSE DOMAIN ph
Rmsf(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET we == MWEff(in.w, in.msk)
        l0 == Ref(in, we)
        ph == Phi2(in.phi, in.double)
    IN IF Len(out.phi2) # Len(ph) THEN {"GridLength"} ELSE
       Broken([DepthGrid |-> \A i \in DOMAIN ph : Near(out.phi2[i], 1000 * ph[i], 2),
               RmsfSum |-> \A p \in DOMAIN in.msk : MK(we, in.msk, p) > 0 => \A i \in Looked(in, ph) :
                   SameC(out.rmsf[p][i], RMSFRe(we, in.lam, in.msk, p, in.g, ph[i], l0),
                                         RMSFIm(we, in.lam, in.msk, p, in.g, ph[i], l0), in.tol),
               UnitPeak |-> \A p \in DOMAIN in.msk : MK(we, in.msk, p) > 0 => \A i \in DOMAIN ph : ph[i] = 0 =>
                   Near(out.rmsf[p][i][1], TS, in.tol) /\ Near(out.rmsf[p][i][2], 0, in.tol),
               ReferenceLambda |-> Lam0Ok(in, out, we, l0),
               (* width * (lambda^2 range) = 3.8, logged *1000 *)
               AnalyticWidth |-> in.fit = 0 =>
                    \A p \in DOMAIN in.msk : Near(out.fwhm[p], 3800, 1) /\ out.stat[p] = -1,
               FittedWidth |-> in.fit # 0 => \A p \in DOMAIN in.msk :
                    out.stat[p] >= 1 /\ (LET h == 2 * HalfWidth(out.rmsf[p], ph, in.fit)
                                        IN Abs(out.fwhmphi[p] - h) <= (h \div 100) * 15),
               ArgumentsUntouched |-> out.untouched])

Judge(ev) == CASE ev.op = "synth" -> Synth(ev.in, ev.out)
               [] ev.op = "layout" -> Layout(ev.in, ev.out)
               [] ev.op = "rmsf" -> Rmsf(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
