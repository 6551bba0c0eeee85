-------------------------------- MODULE Cube --------------------------------
(* FITS images.  An image is a record                                              *)
(*   ax: its axes in FITS order, each [t: role, n: length, v: value at the           *)
(*       reference pixel, p: reference pixel times ten, s: step per pixel]            *)
(*   d:  its values, first axis fastest                                               *)
(* Roles: "x","y" sky, "f" frequency, "p" Faraday depth, "s" Stokes, "o" other.       *)
EXTENDS Fix
RECURSIVE Stride(_, _)
Stride(ax, a) == IF a = 1 THEN 1 ELSE Stride(ax, a - 1) * ax[a - 1].n
Size(ax) == Stride(ax, Len(ax)) * ax[Len(ax)].n
WellFormed(img) == Len(img.d) = Size(img.ax)
At(img, ix) == img.d[1 + SumF(LAMBDA a : (ix[a] - 1) * Stride(img.ax, a), Len(img.ax))]
(* world coordinate of pixel i (counted from one) *)
World(a, i) == a.v + RDiv((10 * i - a.p) * a.s, 10)
AxisOf(img, t) == IF \E a \in DOMAIN img.ax : img.ax[a].t = t THEN CHOOSE a \in DOMAIN img.ax : img.ax[a].t = t ELSE 0
HasAxis(img, t) == AxisOf(img, t) # 0
LenOf(img, t) == IF HasAxis(img, t) THEN img.ax[AxisOf(img, t)].n ELSE 1
(* value at sky position (x, y) and plane z of the axis with role t; other axes at their first pixel *)
Vox(img, x, y, z, t) ==
    At(img, [a \in DOMAIN img.ax |-> CASE img.ax[a].t = "x" -> x [] img.ax[a].t = "y" -> y
                                       [] img.ax[a].t = t -> z [] OTHER -> 1])
(* the axis with role t of two images assigns the same coordinate to pixels i+off of a and i of b *)
SameAxis(a, b, t, off, tol) ==
    LET p == AxisOf(a, t) q == AxisOf(b, t) IN
    (p = 0 \/ q = 0) \/ \A i \in 1..b.ax[q].n : Abs(World(b.ax[q], i) - World(a.ax[p], i + off)) <= tol
(* orientation of the sky axes: matrix elements and rotation cards *)
Turned(a, b, t) == LET p == AxisOf(a, t) q == AxisOf(b, t) IN (p = 0 \/ q = 0) \/ ("r" \in DOMAIN a.ax[p] => ("r" \in DOMAIN b.ax[q] /\ b.ax[q].r = a.ax[p].r))
SameSky(a, b) == /\ HasAxis(b, "x") /\ HasAxis(b, "y")
                 /\ LenOf(a, "x") = LenOf(b, "x") /\ LenOf(a, "y") = LenOf(b, "y")
                 /\ SameAxis(a, b, "x", 0, 1) /\ SameAxis(a, b, "y", 0, 1)
                 /\ Turned(a, b, "x") /\ Turned(a, b, "y")
=============================================================================
