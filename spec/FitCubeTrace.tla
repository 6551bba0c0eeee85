---------------------------- MODULE FitCubeTrace ----------------------------
(* Stokes I models of cubes, and their move to a new reference frequency.             *)
EXTENDS StokesI, Cube, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* ------------------------- noise and source mask ------------------------- *)
(* twice the median of a sequence of integers *)
Med2(s) == LET t == SortSeq(s, <) n == Len(s) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
(* 1000 times the median absolute deviation over 0.6745 *)
Mad1000(s) == LET d2 == Med2(s) IN RDiv(Med2([i \in DOMAIN s |-> Abs(2 * s[i] - d2)]) * 37064, 100)
Plane(in, j) == [p \in DOMAIN in.data |-> in.data[p][j]]
(* first pass: every non-zero pixel, or those under an absolute threshold *)
First(in, j) == SelectSeq(Plane(in, j), LAMBDA v : v # NaN /\ (IF in.thr > 0 THEN 1000 * v < in.thr ELSE v # 0))
Cut(in, j) == LET s == First(in, j) IN 500 * Med2(s) + 3 * Mad1000(s)            \* thousandths
Second(in, j) == SelectSeq(Plane(in, j), LAMBDA v : v # NaN /\ 1000 * v < Cut(in, j))
Dead(in, j) == \A p \in DOMAIN in.data : in.data[p][j] = NaN
(* planes whose two passes are well defined, away from ties *)
Clear(in, j) == /\ ~Dead(in, j)
                /\ (IF First(in, j) = <<>> THEN FALSE
                    ELSE (IF Second(in, j) = <<>> THEN FALSE
                          ELSE \A p \in DOMAIN in.data : in.data[p][j] = NaN \/ Abs(1000 * in.data[p][j] - Cut(in, j)) > 20))
Noise(in, j) == Mad1000(Second(in, j))
(* source threshold of plane j, thousandths *)
Threshold(in, j) == IF in.thr > 0 THEN in.thr ELSE 500 * Med2(Second(in, j)) - RDiv(Noise(in, j) * (in.thr \div 100), 10)
Bright(in, p, j) == in.data[p][j] # NaN /\ 1000 * in.data[p][j] > Threshold(in, j)
(* an absolute threshold decides by itself; a relative one when the two passes are well defined and the value is not on it *)
Decided(in, p, j) == IF in.thr > 0 THEN TRUE ELSE
      (IF Clear(in, j) THEN Abs(1000 * in.data[p][j] - Threshold(in, j)) > 20 ELSE FALSE)
Flagged(in, p, j) == Dead(in, j) \/ in.data[p][j] = NaN
SureBright(in, p, j) == IF Flagged(in, p, j) THEN FALSE ELSE (IF Decided(in, p, j) THEN Bright(in, p, j) ELSE FALSE)
SureDark(in, p, j) == IF Flagged(in, p, j) THEN TRUE ELSE (IF Decided(in, p, j) THEN ~Bright(in, p, j) ELSE FALSE)
InMask(in, p) == ~in.mask \/ \E j \in 1..in.nchan : SureBright(in, p, j)
OffMask(in, p) == in.mask /\ \A j \in 1..in.nchan : SureDark(in, p, j)

(* ------------------------------- the maps -------------------------------- *)
PX(in, p) == ((p - 1) % in.nx) + 1
PY(in, p) == ((p - 1) \div in.nx) + 1
At2(img, in, p) == Vox(img, PX(in, p), PY(in, p), 1, "none")
At3(img, in, p, j) == Vox(img, PX(in, p), PY(in, p), j, "f")
MapOk(img, in) == WellFormed(img) /\ Len(img.ax) = 2 /\ SameSky([ax |-> in.ax, d |-> <<>>], img)
(* selection as read from the mask map; when the mask can be derived it must be that *)
Sel(in, out, p) == At2(out.maskmap, in, p) = 1
SameRow(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i], tol)
(* fits of noise by log-polynomials are ill-conditioned *)
Tol1(out, p) == IF out.one[p].loose THEN 2000 ELSE 60
NoNumber(s) == \A i \in DOMAIN s : s[i] = NaN
Small(in, p6) == \A k \in 1..6 : IsNum(p6[k]) /\ Abs(p6[k]) <= (IF in.fn = "linear" \/ k = 6 THEN 1500000 ELSE 250000)
Tame(in, p6, a) == IF in.fn = "linear" THEN TRUE ELSE Abs(Expo(p6, a)) <= 60000
TolV(v) == 60 + Abs(v) \div 2000
FitCube(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~MapOk(out.maskmap, in) \/ ~out.sky \/ ~WellFormed(out.modelmap) \/ ~SameSky([ax |-> in.ax, d |-> <<>>], out.modelmap)
       \/ LenOf(out.modelmap, "f") # in.nchan THEN {"MapAxes"} ELSE
    LET P == DOMAIN in.data IN
    Broken([
      Products |-> out.products,
      (* the two matrix axes count the parameters from zero *)
      CovarianceAxes |-> Len(out.covax) = 2 /\ \A a \in 1..2 : out.covax[a].n = 6 /\ out.covax[a].v = 0 /\ out.covax[a].p = 10 /\ out.covax[a].s = 1 /\ out.covax[a].t = "o",
      FrequencyAxis |-> in.chkaxis => SameAxis([ax |-> in.ax, d |-> <<>>], out.modelmap, "f", 0, 1),
      Noise |-> Len(out.noise) = in.nchan /\ \A j \in 1..in.nchan :
            IF Dead(in, j) THEN out.noise[j] = NaN ELSE Clear(in, j) => Near(out.noise[j], Noise(in, j), 3 + Noise(in, j) \div 20000),
      Mask |-> \A p \in P : /\ At2(out.maskmap, in, p) \in {1, NaN}
                            /\ InMask(in, p) => At2(out.maskmap, in, p) = 1
                            /\ OffMask(in, p) => At2(out.maskmap, in, p) = NaN,
      BlankAlike |-> \A p \in P : ~Sel(in, out, p) =>
            /\ NoNumber(out.coef[p]) /\ NoNumber(out.err[p]) /\ NoNumber(out.cov[p]) /\ out.ref[p] = NaN
            /\ \A j \in 1..in.nchan : At3(out.modelmap, in, p, j) = NaN,
      SameCoefficients |-> \A p \in P : Sel(in, out, p) => SameRow(out.coef[p], out.one[p].coef, Tol1(out, p)),
      SameErrors |-> \A p \in P : Sel(in, out, p) => SameRow(out.err[p], out.one[p].err, Tol1(out, p)),
      SameCovariance |-> \A p \in P : Sel(in, out, p) => SameRow(out.cov[p], out.one[p].cov, Tol1(out, p)),
      SameReference |-> \A p \in P : Sel(in, out, p) => Same(out.ref[p], out.one[p].ref, 2),
      SameModel |-> \A p \in P : Sel(in, out, p) => SameRow([j \in 1..in.nchan |-> At3(out.modelmap, in, p, j)], out.one[p].model, Tol1(out, p)),
      (* the maps alone reproduce the model cube *)
      MapsGiveModel |-> \A p \in P : (Sel(in, out, p) /\ Small(in, out.abs[p])) => \A j \in 1..in.nchan :
            (IsNum(out.arg[p][j]) /\ Tame(in, out.abs[p], out.arg[p][j])) =>
              LET v == Value(in.fn, out.abs[p], out.arg[p][j]) IN
              Abs(v) > 10000000 \/ Near(out.mabs[p][j], v, TolV(v) + (IF in.fn = "linear" THEN SumF(LAMBDA k : Abs(out.abs[p][k]), 6) \div 10000 ELSE 0)),
      BlankModel |-> \A p \in P : (\A j \in 1..in.nchan : in.data[p][j] = NaN) => \A j \in 1..in.nchan : At3(out.modelmap, in, p, j) = NaN,
      InputsUnmodified |-> out.untouched ])

(* --------------------------- new reference ------------------------------- *)
(* in.p[q], in.cov[q], in.st[q]: coefficients, covariance and change of pixel q; *)
(* in.blank[q]; out.p[q], out.err[q]: the new maps                               *)
Moved(in, q) == IF in.fn = "linear" THEN RenormLin(in.p[q], in.st[q][1], in.st[q][2]) ELSE RenormLog(in.p[q], in.st[q][1])
MTol(v) == 40 + Abs(v) \div 1500
(* highest order with a non-zero coefficient *)
Highest(in) == LET K == {k \in 1..6 : \E q \in DOMAIN in.p : ~in.blank[q] /\ in.p[q][k] # 0} IN
               IF K = {} THEN 0 ELSE 6 - (CHOOSE k \in K : \A m \in K : k <= m)
(* arguments of the model before and after the change *)
NewArg(in, q, a) == IF in.fn = "linear" THEN MulS(a, FDiv(in.st[q][2], in.st[q][1], 5)) ELSE a - in.st[q][1]
Rel(a, b, tol, ppm) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol + ((Abs(b) \div 1000) * ppm) \div 1000
ErrOk(in, out, q, k) ==
    IF in.covmax < 0 THEN TRUE
    ELSE IF in.fn = "linear" THEN Rel(out.err[q][k], 1000 * in.cov[q][k][k], 20, 3000)
    ELSE LET v == VarOf(LAMBDA j : JLog(k, j, in.st[q][1], in.p[q][6]), in.cov[q])
         IN Rel(out.err[q][k], v \div 10, 30 + (in.covmax * 12), 10000)
Rescale(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF ~out.shape THEN {"Shape"} ELSE
    LET Q == DOMAIN in.p planes == {k \in 1..6 : 6 - k < out.nplanes} IN
    Broken([
      AllOrders |-> out.nplanes > Highest(in),
      Coefficients |-> \A q \in Q, k \in planes : ~in.blank[q] => Near(out.p[q][k], Moved(in, q)[k], MTol(Moved(in, q)[k])),
      ModelUnchanged |-> \A q \in Q : (~in.blank[q] /\ out.nplanes > Highest(in)) => \A m \in DOMAIN in.args :
            LET v == Value(in.fn, in.p[q], in.args[m])
                w == Value(in.fn, [k \in 1..6 |-> IF k \in planes THEN out.p[q][k] ELSE 0], NewArg(in, q, in.args[m]))
            IN Near(w, v, 100 + Abs(v) \div 800 + (IF in.fn = "linear" THEN SumF(LAMBDA k : Abs(in.p[q][k]), 6) \div 5000 ELSE 0)),
      ErrorPropagation |-> \A q \in Q, k \in planes : ~in.blank[q] => ErrOk(in, out, q, k),
      BlankStaysBlank |-> \A q \in Q : in.blank[q] => out.p[q][6] = NaN /\ out.err[q][6] = NaN,
      OnlyBlankIsBlank |-> \A q \in Q, k \in planes : ~in.blank[q] => out.p[q][k] # NaN,
      Reference |-> out.ref # -1 => Near(out.ref, in.newref, 3),
      Products |-> out.products,
      InputsUnmodified |-> out.untouched ])

Judge(ev) == CASE ev.op = "fitcube" -> FitCube(ev.in, ev.out)
               [] ev.op = "rescale" -> Rescale(ev.in, ev.out)
               (* a model as written by the fit, moved *)
               [] ev.op = "chain" -> IF ev.out.exc # "" THEN {"NoException"} ELSE Rescale(ev.out.rin, ev.out.rout)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
