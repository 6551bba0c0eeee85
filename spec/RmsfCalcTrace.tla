--------------------------- MODULE RmsfCalcTrace ---------------------------
(* Judges what the RMSF calculator prints. *)
EXTENDS RmsfCalc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Med2(s) == LET t == SortSeq(s, <) n == Len(s) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
Steps(x) == [j \in 1..(Len(x) - 1) |-> Abs(x[j + 1] - x[j])]
(* printed with four figures *)
Like(o, e, extra) == Near(o, e, 2 + extra + (Abs(e) \div 1500))
(* a width that the rounding of the inputs decides (a fit that does not settle) is not judged *)
Width(out) == out.own = NaN \/ Like(out.fwhm, out.own, 1)
(* lattice sampling: values in units of 10^-4 / UL *)
LatEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET lam == in.lam  w == in.w
        lo == MinSeq(lam)  hi == MaxSeq(lam)
        (* default grid: a tenth of 2 sqrt(3)/range, so that a step turns channel j by 0.4 sqrt(3) lam/range radians *)
        th(k, x) == LET u == k * x IN (((u \div 20) * 39696) \div (hi - lo)) * 20 + ((u % 20) * 39696) \div (hi - lo) + ((u * 4) \div (10 * (hi - lo)))
        modD(k) == LET a == RDiv(SumF(LAMBDA j : w[j] * CosM(th(k, lam[j])), Len(lam)), SumSeq(w))
                       b == RDiv(SumF(LAMBDA j : w[j] * SinM(th(k, lam[j])), Len(lam)), SumSeq(w))
                   IN RootIn(((a \div 10) * (a \div 10)) + ((b \div 10) * (b \div 10)), 0, 20001)
        n == (2 * in.half) + 2
        r == TLCEval([k \in 1..n |-> IF in.def = 1 THEN modD(k - 1) ELSE Mod(lam, w, in.s, k - 1)])
        e == IF in.def = 1 THEN 30 ELSE 4
    IN Broken([TheoryFwhm |-> Like(out.fwhm0, FDiv(38000, hi - lo, 0), 1),
               LargestScale |-> Like(out.scale, FDiv(31416, lo, 0), 1),
               LargestDepth |-> Like(out.depth, FDiv(34641, Med2(Steps(lam)), 0), 1),
               MeasuredFwhm |-> Width(out),
               Sidelobe |-> IF out.side = <<>> THEN MustBe(r, e) = {}
                            ELSE LET k == RDiv(out.side[1], 1000) + 1 IN
                                 /\ Near(out.side[1], (k - 1) * 1000, 2 + k)
                                 /\ k \in MayBe(r, e) /\ Near(out.side[2], r[k], e + 3)
                                 /\ \A m \in MustBe(r, e) : r[m] <= out.side[2] + e + 3,
               PlotSaved |-> out.plot])
(* whole MHz *)
LamSq(f) == FDiv(898755179, f * f, 4)
MhzEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET x == TLCEval([j \in DOMAIN in.f |-> LamSq(in.f[j])])
        lo == MinSeq(x)  hi == MaxSeq(x)
    IN Broken([TheoryFwhm |-> LET e == FDiv(380000000, hi - lo, 2) IN Near(out.fwhm0, e, 5 + (e \div Min2(1400, (hi - lo) \div 3))),
               LargestScale |-> Like(out.scale, FDiv(314159265, lo, 2), 3),
               LargestDepth |-> LET m == Med2(Steps(x)) IN Near(out.depth, FDiv(346410162, m, 0), 2 + (FDiv(346410162, m, 0) \div Min2(1000, m \div 4))),
               MeasuredFwhm |-> Width(out),
               PlotSaved |-> out.plot])
BadEv(in, out) == IF out.exc # "" THEN {"NoException"} ELSE Broken([Refused |-> out.refused # "", NothingPrinted |-> ~out.said])
Verdict(ev) == CASE ev.op = "lat" -> LatEv(ev.in, ev.out)
                 [] ev.op = "mhz" -> MhzEv(ev.in, ev.out)
                 [] ev.op = "bad" -> BadEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
