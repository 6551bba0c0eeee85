---------------------------- MODULE PeakCubeTrace ---------------------------
(* Peak fitting of a cube: each map holds at each sky pixel the measurement of that    *)
(* pixel's own spectrum.  in.pix[p]: fdf, amp, f10 of pixel p = x + nx*(y-1) (fdf empty *)
(* when blank), in.ipix[p]: its Stokes I model; out.maps: the saved maps (scaled),      *)
(* out.solo: the 1-D measurement of each pixel on the same scales.                       *)
EXTENDS PeakRules, Cube, Planes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
PX(in, p) == ((p - 1) % in.nx) + 1
PY(in, p) == ((p - 1) \div in.nx) + 1
Val(img, in, p) == Vox(img, PX(in, p), PY(in, p), 1, "none")
Blank(in, p) == in.pix[p].amp = <<>>
Pixel(in, p) == [fdf |-> in.pix[p].fdf, amp |-> in.pix[p].amp, f10 |-> in.pix[p].f10, phi |-> in.phi, noise10 |-> in.noise10,
                 lam |-> in.lam, l0 |-> in.l0, d |-> in.d, thr10 |-> 50]
OutOf(in, out, p) == [n \in DOMAIN out.maps |-> Val(out.maps[n], in, p)]
(* rounding decides whether a vertex on the edge of the range is a measurement *)
OnEdge(in, p) == \E i \in Peaks(in.pix[p].amp) :
    Flat(in.pix[p].amp, in.phi, i) \/ Abs(Abs(VertexPhi(in.pix[p].amp, in.phi, i)) - 1000 * MaxAbsPhi(in.phi)) <= 2
Peak(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    IF \E n \in DOMAIN out.maps : ~WellFormed(out.maps[n]) \/ Len(out.maps[n].ax) # 2 \/ ~SameSky([ax |-> in.ax, d |-> <<>>], out.maps[n]) THEN {"MapAxes"} ELSE
    Broken([
      Products |-> DOMAIN out.maps = {in.products[k] : k \in DOMAIN in.products},
      BlankIsNaN |-> \A n \in DOMAIN out.maps, p \in DOMAIN in.pix : Blank(in, p) => Val(out.maps[n], in, p) = NaN,
      SameAsAlone |-> \A n \in DOMAIN out.maps \cap DOMAIN out.solo, p \in DOMAIN in.pix : (~Blank(in, p) /\ ~OnEdge(in, p)) =>
            Same(Val(out.maps[n], in, p), out.solo[n][p], 2 + (IF IsNum(out.solo[n][p]) THEN Abs(out.solo[n][p]) \div 500000 ELSE 0)),
      StokesIMap |-> ("ifreq0" \in DOMAIN out.maps) => \A p \in DOMAIN in.pix : ~Blank(in, p) =>
            Near(Val(out.maps["ifreq0"], in, p), IF in.hasi THEN I0At(in.fr, in.f0, in.ipix[p]) ELSE 1000, 3),
      (* fraction times the Stokes I value is the amplitude: fracPol is logged as amplitude over fraction *)
      Fraction |-> ("frac" \in DOMAIN out.maps) => \A p \in DOMAIN in.pix : (~Blank(in, p) /\ ~OnEdge(in, p)) =>
            (out.solo["amp"][p] = NaN \/ out.solo["amp"][p] <= 0 \/ Near(Val(out.maps["frac"], in, p), Val(out.maps["ifreq0"], in, p), 3)),
      Channels |-> ("nchan" \in DOMAIN out.maps) => \A p \in DOMAIN in.pix : ~Blank(in, p) =>
            /\ Val(out.maps["nchan"], in, p) = Len(in.lam)
            /\ Near(Val(out.maps["fmin"], in, p), MinSeq(in.fr), 2) /\ Near(Val(out.maps["fmax"], in, p), MaxSeq(in.fr), 2)
            /\ Near(Val(out.maps["f0"], in, p), in.f0, 2)
            /\ Near(2 * Val(out.maps["mcw"], in, p), Median2([k \in 1..(Len(in.fr) - 1) |-> Abs(in.fr[k + 1] - in.fr[k])]), 6),
      Width |-> ("fwhm" \in DOMAIN out.maps) => \A p \in DOMAIN in.pix : ~Blank(in, p) => Near(Val(out.maps["fwhm"], in, p), 100 * in.pix[p].f10, 2)])
    \cup (IF in.full THEN UNION {IF Blank(in, p) THEN {} ELSE PeakBroken(Pixel(in, p), OutOf(in, out, p)) : p \in DOMAIN in.pix} ELSE {})
Judge(ev) == CASE ev.op = "peak3" -> Peak(ev.in, ev.out) [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
