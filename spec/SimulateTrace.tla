--------------------------- MODULE SimulateTrace ---------------------------
(* Judges recorded simulated spectra, ASCII data sets and cubes. *)
EXTENDS Simulate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol == 90
IsFlag(in, f) == \E r \in {in.flags[k] : k \in DOMAIN in.flags} : f >= r[1] /\ f <= r[2]
CSame(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
Mod6(z) == ((RDiv(z[1], 100)) * (RDiv(z[1], 100))) + ((RDiv(z[2], 100)) * (RDiv(z[2], 100)))
(* spectra of one source, from the functions *)
SpecEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE IF ~out.shape THEN {"Shape"} ELSE
    LET e == TLCEval([j \in DOMAIN in.f |-> Pol(in.kind, in.cs, in.f[j])])
        fl == TLCEval([j \in DOMAIN in.f |-> Flux(in.si, in.f[j], in.f0)])
    IN Broken([Polarisation |-> \A j \in DOMAIN in.f : CSame(out.qu[j], e[j], Tol),
               Amplitude |-> \A j \in DOMAIN in.f : Near(RDiv(out.p[j], 100) * RDiv(out.p[j], 100), Mod6(out.qu[j]), 4000),
               Intensity |-> \A j \in DOMAIN in.f : Near(out.i[j], fl[j], 20 + (fl[j] \div 4000)),
               StokesQU |-> \A j \in DOMAIN in.f : CSame(out.fqu[j], CScale(out.i[j], out.qu[j]), 5 + (out.i[j] \div 30000)),
               Residual |-> \A j \in DOMAIN in.f : \A n \in DOMAIN out.res : CSame(out.res[n][j], <<out.qu[j][1] - 30000, out.qu[j][2] + 20000>>, 3),
               SameAsFitModel |-> \A j \in DOMAIN in.f : out.fit # <<>> => CSame(out.fit[j], out.qu[j], 3),
               InputsUnmodified |-> out.untouched])
(* template noise (1/1000 of its median) at frequency f: linear between and beyond the template's points *)
Line(x, y, i, f) == y[i] + RDiv((y[i + 1] - y[i]) * (f - x[i]), x[i + 1] - x[i])
Noise(in, f) == IF in.tx = <<>> THEN 1000 ELSE
    LET n == Len(in.tx)
        i == IF f < in.tx[1] THEN 1 ELSE IF f >= in.tx[n] THEN n - 1 ELSE CHOOSE k \in 1..(n - 1) : in.tx[k] <= f /\ f < in.tx[k + 1]
        m == Med2(in.ty)
    IN RDiv(2000 * Line(in.tx, in.ty, i, f), m)
Real(src) == src.kind # "other"
CatEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET want == {n \in DOMAIN in.srcs : Real(in.srcs[n])}
        ok == out.files = SelectSeq([n \in DOMAIN in.srcs |-> n], LAMBDA n : n \in want)
    IN IF ~ok THEN {"OneFilePerSource"} ELSE
    Broken([Count |-> out.count = NaN \/ out.count = Cardinality(want),
            Channels |-> \A k \in DOMAIN out.files : Len(out.rows[k]) = Len(in.f) /\ \A j \in DOMAIN in.f : out.rows[k][j].f = (IF IsFlag(in, in.f[j]) THEN NaN ELSE in.f[j]),
            FlaggedBlank |-> \A k \in DOMAIN out.files : \A j \in DOMAIN in.f : IsFlag(in, in.f[j]) => \A c \in {"i", "q", "u"} : out.rows[k][j][c] = NaN,
            Spectra |-> in.noise = 0 => \A k \in DOMAIN out.files : LET s == in.srcs[out.files[k]] IN
                \A j \in DOMAIN in.f : IsFlag(in, in.f[j]) \/
                    LET i == Flux(s.si, in.f[j], in.f0) e == CScale(i, Pol(s.kind, s.cs, in.f[j])) o == out.rows[k][j]
                    IN Near(o.i, i, 20 + (i \div 4000)) /\ CSame(<<o.q, o.u>>, e, Tol + (i \div 4000)),
            (* noise and errors scale with the noise level and its template: within six deviations per channel *)
            NoiseLevel |-> \A k \in DOMAIN out.files : \A j \in DOMAIN in.f : IsFlag(in, in.f[j]) \/
                LET n == Noise(in, in.f[j]) IN \A c \in {"di", "dq", "du"} : IF in.noise = 0 THEN Near(out.rows[k][j][c], 0, 1) ELSE Near(out.rows[k][j][c], n, 2 + (n * 3) \div 10),
            Scatter |-> in.noise > 0 => \A k \in DOMAIN out.files : \A c \in {"i", "q", "u"} :
                LET s == in.srcs[out.files[k]]
                    g == {j \in DOMAIN in.f : ~IsFlag(in, in.f[j])}
                    x == TLCEval([j \in DOMAIN in.f |-> IF j \notin g THEN 0 ELSE
                            LET o == out.rows[k][j] n == Noise(in, in.f[j])
                            IN RDiv(o["n" \o c] * 1000, Max2(1, n))])
                    sum == SumF(LAMBDA j : (x[j] * x[j]) \div 1000, Len(x))       \* thousandths
                IN /\ \A j \in g : Abs(x[j]) <= 6500
                   /\ Cardinality(g) >= 30 => sum > 250 * Cardinality(g) /\ sum < 2400 * Cardinality(g),
            Independent |-> (in.noise > 0) => \A k \in DOMAIN out.files : \A c \in {<<"ni", "nq">>, <<"nq", "nu">>, <<"ni", "nu">>} :
                \E j \in DOMAIN in.f : IsFlag(in, in.f[j]) \/ Abs(out.rows[k][j][c[1]] - out.rows[k][j][c[2]]) > 1])
(* cubes *)
CubeEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    LET srcs == {n \in DOMAIN in.srcs : Real(in.srcs[n])}
        pol(n) == TLCEval([j \in DOMAIN in.f |-> LET s == in.srcs[n] i == Flux(s.si, in.f[j], in.f0) IN <<i, CScale(i, Pol(s.kind, s.cs, in.f[j]))>>])
        tab == TLCEval([n \in DOMAIN in.srcs |-> IF n \in srcs THEN pol(n) ELSE <<>>])
        bm(n, p) == Beam((100 * p[1]) - in.srcs[n].x, (100 * p[2]) - in.srcs[n].y, in.w1, in.w2, in.pa)
        tot(j, p, c) == SumF(LAMBDA n : IF n \notin srcs THEN 0 ELSE LET b == bm(n, p) e == tab[n][j] s == in.srcs[n].w
                                 v == IF c = 1 THEN e[1] ELSE e[2][c - 1]
                             IN RDiv(MulS(v, b) * s, 10), Len(in.srcs))
    IN Broken([Count |-> out.count = Cardinality(srcs),
               FreqFile |-> out.freqs = in.f,
               Layout |-> out.shape = <<1, Len(in.f), in.ny, in.nx>>,
               Stokes |-> out.stokes = <<1, 2, 3>>,
               Axes |-> Near(out.ax.f1, in.f[1], 0) /\ Near(out.ax.df, in.f[2] - in.f[1], 0) /\ out.ax.nf = 1 /\ Near(out.ax.bmaj, in.w2, 1) /\ Near(out.ax.bmin, in.w1, 1) /\ Near(out.ax.pa, in.pa, 1),
               Positions |-> \A k \in DOMAIN out.pix : Near(out.pix[k][1], in.srcs[k].x, 2) /\ Near(out.pix[k][2], in.srcs[k].y, 2),
               FlaggedBlank |-> srcs # {} => \A n \in DOMAIN in.at : \A j \in DOMAIN in.f : IsFlag(in, in.f[j]) => \A c \in 1..3 : out.v[n][j][c] = NaN,
               Values |-> \A n \in DOMAIN in.at : \A j \in DOMAIN in.f : IsFlag(in, in.f[j]) \/ \A c \in 1..3 :
                    LET t == tot(j, in.at[n], c) IN Near(out.v[n][j][c], t, (30 + Tol * Cardinality(srcs)) * 3)])
(* noise cubes *)
NoiseEv(in, out) ==
    IF out.exc # "" THEN {"NoException"} ELSE
    Broken([PlaneNoise |-> \A c \in 1..3 : \A j \in DOMAIN in.f : LET n == Noise(in, in.f[j]) IN Near(out.sd[c][j], n, 2 + (n * 3) \div 10),
            Centred |-> \A c \in 1..3 : \A j \in DOMAIN in.f : LET n == Noise(in, in.f[j]) IN Near(out.mean[c][j], 0, 2 + n \div 3),
            Independent |-> out.same = 0])
Verdict(ev) == CASE ev.op = "spec" -> SpecEv(ev.in, ev.out)
                 [] ev.op = "cat" -> CatEv(ev.in, ev.out)
                 [] ev.op = "cube" -> CubeEv(ev.in, ev.out)
                 [] ev.op = "noise" -> NoiseEv(ev.in, ev.out)
                 [] OTHER -> {"UnknownEvent"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
