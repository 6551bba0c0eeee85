--------------------------- MODULE CleanCubeTrace ---------------------------
(* RM-CLEAN of the files of 3-D synthesis: every sky pixel is cleaned on its own, in   *)
(* place.  in.pix[p] (when the cubes were written by the harness) holds the dirty       *)
(* spectrum, the spread function and the width f of pixel p = x + nx*(y-1);             *)
(* out.solo[p] is the 1-D CLEAN of that pixel; all values times 10^5.                   *)
EXTENDS RMClean, Cube, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
PX(in, p) == ((p - 1) % in.nx) + 1
PY(in, p) == ((p - 1) \div in.nx) + 1
NP(in) == in.nx * in.ny
Pl(img, in, k, p) == Vox(img, PX(in, p), PY(in, p), k, "p")
Spec2(re, im, in, p) == [k \in 1..LenOf(re, "p") |-> <<Pl(re, in, k, p), Pl(im, in, k, p)>>]
SameSeq(a, b, t) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k][1], b[k][1], t) /\ Same(a[k][2], b[k][2], t)
MapOf(img, ax, in) == LET full == [ax |-> ax, d |-> <<>>] IN WellFormed(img) /\ SameSky(full, img) /\ Size(img.ax) = NP(in)
StokesIs(img, v) == ~HasAxis(img, "s") \/ LET a == img.ax[AxisOf(img, "s")] IN World(a, 1) = v
AxesKept(ax, img) == /\ Len(img.ax) = Len(ax)
                     /\ \A a \in DOMAIN ax : img.ax[a].t = ax[a].t /\ img.ax[a].n = ax[a].n
                            /\ (ax[a].t = "s" \/ (img.ax[a].v = ax[a].v /\ img.ax[a].p = ax[a].p /\ img.ax[a].s = ax[a].s))
Tot(t, a, b) == LET x == a \div 1000 y == b \div 1000 z == t \div 1000 IN Abs((x * x) + (y * y) - (z * z)) <= 6 * (z + 2)
Blank(d) == d[1][1] = NaN
Quiet(in, p) == Blank(in.pix[p].dirty) \/ \A k \in DOMAIN in.pix[p].amp0 : in.pix[p].amp0[k] < in.cutoff
Tol(it) == 4 + 4 * it
Clean(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET imgs == <<out.cre, out.cim, out.ctot, out.ccre, out.ccim, out.cctot>> IN
    IF \E n \in DOMAIN imgs : ~WellFormed(imgs[n]) \/ ~AxesKept(out.dax, imgs[n]) THEN {"Axes"} ELSE
    IF ~MapOf(out.nit, out.dax, in) THEN {"IterationMap"} ELSE
    LET it(p) == Vox(out.nit, PX(in, p), PY(in, p), 1, "none") IN
    Broken([
      SameAsAlone |-> \A p \in 1..NP(in) :
            /\ SameSeq(Spec2(out.cre, out.cim, in, p), out.solo[p].clean, 3)
            /\ SameSeq(Spec2(out.ccre, out.ccim, in, p), out.solo[p].cc, 3),
      IterationMap |-> \A p \in 1..NP(in) : it(p) = out.solo[p].iter /\ it(p) <= in.limit,
      Totals |-> \A p \in 1..NP(in), k \in 1..LenOf(out.cre, "p") :
            /\ Pl(out.cre, in, k, p) = NaN \/ Tot(Pl(out.ctot, in, k, p), Pl(out.cre, in, k, p), Pl(out.cim, in, k, p))
            /\ Pl(out.ccre, in, k, p) = NaN \/ Tot(Pl(out.cctot, in, k, p), Pl(out.ccre, in, k, p), Pl(out.ccim, in, k, p)),
      StokesAxis |-> StokesIs(out.cre, 2) /\ StokesIs(out.cim, 3) /\ StokesIs(out.ctot, 0)
                     /\ StokesIs(out.ccre, 2) /\ StokesIs(out.ccim, 3) /\ StokesIs(out.cctot, 0),
      Untouched |-> \A p \in DOMAIN in.pix : Quiet(in, p) => /\ SameSeq(Spec2(out.cre, out.cim, in, p), in.pix[p].dirty, 1)
                                                             /\ it(p) = 0
                                                             /\ \A k \in DOMAIN in.pix[p].dirty : Pl(out.ccre, in, k, p) = 0 /\ Pl(out.ccim, in, k, p) = 0,
      (* dirty = clean - components*Gaussian + components*spread function *)
      Conservation |-> \A p \in DOMAIN in.pix : Quiet(in, p) \/
            LET cc == Spec2(out.ccre, out.ccim, in, p)
                cl == Spec2(out.cre, out.cim, in, p)
                d == in.pix[p].dirty
                big == \E k \in DOMAIN cc : Abs(cc[k][1]) > 1500000 \/ Abs(cc[k][2]) > 1500000
            IN big \/ \A k \in DOMAIN d :
                 CNear(d[k], CAdd(CSub(cl[k], Restored(cc, in.pix[p].f, k)), Model(cc, in.pix[p].r, in.c, k)), 2 * Tol(it(p))),
      Started |-> \A p \in DOMAIN in.pix : Quiet(in, p) \/ in.limit = 0 \/ it(p) > 0,
      InputsKept |-> out.kept ])
Judge(ev) == CASE ev.op = "clean3" -> Clean(ev.in, ev.out) [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
