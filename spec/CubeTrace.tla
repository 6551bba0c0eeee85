----------------------------- MODULE CubeTrace ------------------------------
(* Recorded executions of the tools that address pixels of FITS files.               *)
EXTENDS Cube, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* ---- expected extent after a step: offsets and lengths of x, y and the plane axis ---- *)
First(img, t) == [x |-> 0, y |-> 0, z |-> 0, nx |-> LenOf(img, "x"), ny |-> LenOf(img, "y"), nz |-> LenOf(img, t)]
Step(st, op, planes) ==
    CASE op.op = "crop" -> [x |-> st.x + op.box[1] - 1, y |-> st.y + op.box[3] - 1, z |-> st.z + (IF planes THEN op.box[5] - 1 ELSE 0),
                            nx |-> op.box[2] - op.box[1] + 1, ny |-> op.box[4] - op.box[3] + 1,
                            nz |-> IF planes THEN op.box[6] - op.box[5] + 1 ELSE st.nz]
      [] op.op = "assemble1" -> [st EXCEPT !.nz = 1]
      [] OTHER -> st
RECURSIVE StepTo(_, _, _, _)
StepTo(st, ops, n, planes) == IF n = 0 THEN st ELSE Step(StepTo(st, ops, n - 1, planes), ops[n], planes)
HasProcessed(ops, n) == \E i \in 1..n : ops[i].op = "assemble1"
(* image b is the part st of image a; processing multiplied the values by f *)
Part(a, b, t, st, f) ==
    IF ~WellFormed(b) THEN {"Shape"} ELSE
    Broken([ Extent |-> LenOf(b, "x") = st.nx /\ LenOf(b, "y") = st.ny /\ LenOf(b, t) = st.nz,
             Pixels |-> (LenOf(b, "x") = st.nx /\ LenOf(b, "y") = st.ny /\ LenOf(b, t) = st.nz) =>
                 \A x \in 1..st.nx, y \in 1..st.ny, z \in 1..st.nz : Vox(b, x, y, z, t) = f * Vox(a, x + st.x, y + st.y, z + st.z, t),
             Coordinates |-> /\ SameAxis(a, b, "x", st.x, 1) /\ SameAxis(a, b, "y", st.y, 1) /\ SameAxis(a, b, t, st.z, 1) /\ SameAxis(a, b, "s", 0, 1)
                            /\ Turned(a, b, "x") /\ Turned(a, b, "y"),
             AxesKept |-> [i \in DOMAIN b.ax |-> b.ax[i].t] = [i \in DOMAIN a.ax |-> a.ax[i].t] ])
(* chunk files of image a (part st of it): every pixel exactly once with its whole spectrum *)
SpecOf(c, i, t) == [z \in 1..LenOf(c, t) |-> Vox(c, i, 1, z, t)]
ChunksOf(a, cs, t, st, n, f) ==
    IF \E c \in DOMAIN cs : ~WellFormed(cs[c]) THEN {"Shape"} ELSE
    LET slots == {s \in (DOMAIN cs) \X (1..n) : s[2] <= LenOf(cs[s[1]], "x")}
        pix == (1..st.nx) \X (1..st.ny)
        want(p) == [z \in 1..st.nz |-> f * Vox(a, p[1] + st.x, p[2] + st.y, z + st.z, t)]
        got(s) == SpecOf(cs[s[1]], s[2], t)
    IN Broken([
        ChunkCount |-> Len(cs) = ((st.nx * st.ny + n) - 1) \div n,
        ChunkSizes |-> \A c \in DOMAIN cs : LenOf(cs[c], "x") >= 1 /\ LenOf(cs[c], "x") <= n /\ LenOf(cs[c], "y") = 1,
        EveryPixelOnce |-> Cardinality(slots) = st.nx * st.ny /\ {got(s) : s \in slots} = {want(p) : p \in pix} ])
Factor(ops, n) == IF HasProcessed(ops, n) THEN 2 ELSE 1
Pipe(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET st0 == First(in.img, in.t)
        at(i) == StepTo(st0, in.hist, i, in.planes)
    IN UNION { IF in.hist[i].op = "split" THEN ChunksOf(in.img, out.imgs[i], in.t, at(i), in.hist[i].n, Factor(in.hist, i))
               ELSE Part(in.img, out.imgs[i][1], in.t, at(i), Factor(in.hist, i)) : i \in DOMAIN in.hist }

(* ---- coordinates of one FITS axis ---- *)
AxisEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([ LinearAxis |-> Len(out.lin) = in.ax.n /\ \A i \in DOMAIN out.lin : Near(out.lin[i], World(in.ax, i), in.tol) ])
FreqEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([ FrequencyFile |-> Len(out.freq) = in.ax.n /\ \A i \in DOMAIN out.freq : Near(out.freq[i], World(in.ax, i), in.tol),
             FrequencyAxisFound |-> out.found = in.axno,
             PlaneFirst |-> out.first ])
(* ---- spectrum of one pixel for 1-D synthesis ---- *)
SpecEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET want(img) == [z \in 1..LenOf(img, "f") |-> Vox(img, in.x, in.y, z, "f")] IN
    Broken([ PixelQ |-> out.q = want(in.q), PixelU |-> out.u = want(in.u), PixelI |-> out.i = (IF in.hasi THEN want(in.i) ELSE <<>>),
             Frequencies |-> Len(out.freq) = in.q.ax[AxisOf(in.q, "f")].n
                 /\ \A k \in DOMAIN out.freq : Near(out.freq[k], World(in.q.ax[AxisOf(in.q, "f")], k), 2) ])
(* the FITS front end saves what synthesis of that pixel's spectra gives with the same settings *)
FrontEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([ FrontEndRuns |-> out.err = out.got,
             FrontEndResult |-> out.ka = out.kb /\ Len(out.a) = Len(out.b) /\ \A c \in DOMAIN out.b :
                  Len(out.a[c]) = Len(out.b[c]) /\ \A k \in DOMAIN out.b[c] : Same(out.a[c][k], out.b[c][k], 3),
             FrontEndUnits |-> out.unit ])
Judge(ev) == CASE ev.op = "pipe" -> Pipe(ev.in, ev.out)
               [] ev.op = "axis" -> AxisEv(ev.in, ev.out)
               [] ev.op = "freqfile" -> FreqEv(ev.in, ev.out)
               [] ev.op = "pixel" -> SpecEv(ev.in, ev.out)
               [] ev.op = "front" -> FrontEv(ev.in, ev.out)
               [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
