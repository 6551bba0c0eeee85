------------------------------ MODULE StokesI -------------------------------
(* Stokes I models: polynomials in x = f/f0 ("linear") or powers of ten of        *)
(* polynomials in log10 x ("log"), and their change of reference frequency.       *)
(* Fixed point, scale S = 10^5.  Coefficients are listed from high to low order.  *)
EXTENDS Fix
S == 100000
MulS(a, b) == (a * (b \div 1000)) \div 100 + (a * (b % 1000)) \div S
(* 10^e, e at scale S, result at scale S *)
LOCAL TA == <<100000, 125893, 158489, 199526, 251189, 316228, 398107, 501187, 630957, 794328>>
LOCAL TB == <<100000, 102329, 104713, 107152, 109648, 112202, 114815, 117490, 120226, 123027>>
LOCAL TC == <<100000, 100231, 100462, 100693, 100925, 101158, 101391, 101625, 101859, 102094>>
RECURSIVE Dec(_, _)
Dec(v, n) == IF n = 0 THEN v ELSE IF n > 0 THEN Dec(v * 10, n - 1) ELSE Dec(v \div 10, n + 1)
Pow10(e) == LET n == e \div S f == e % S
                a == TA[(f \div 10000) + 1]
                b == TB[((f \div 1000) % 10) + 1]
                c == TC[((f \div 100) % 10) + 1]
                d == S + ((f % 100) * 230) \div 100
            IN Dec(MulS(MulS(MulS(a, b), c), d), n)
(* polynomial p[1]x^5 + ... + p[6], x at scale S *)
Horner(p, x) == FoldLeft(LAMBDA acc, c : MulS(acc, x) + c, 0, p)
(* exponent p[1]L^5 + ... + p[5]L *)
Expo(p, L) == MulS(FoldLeft(LAMBDA acc, k : MulS(acc, L) + p[k], 0, <<1, 2, 3, 4, 5>>), L)
(* value of a model whose argument is x (linear) or L = log10 x (log) *)
Value(fn, p, arg) == IF fn = "linear" THEN Horner(p, arg) ELSE MulS(Pow10(Expo(p, arg)), p[6])

(* change of the reference by the factor x = num/den (linear), L = log10 x (log) *)
RECURSIVE Ratio(_, _, _, _)
Ratio(v, num, den, n) == IF n = 0 THEN v ELSE Ratio(((v \div den) * num) + RDiv((v % den) * num, den), num, den, n - 1)
RenormLin(p, num, den) == [k \in 1..6 |-> Ratio(p[k], num, den, 6 - k)]
RECURSIVE LPow(_, _)
LPow(L, n) == IF n = 0 THEN S ELSE MulS(LPow(L, n - 1), L)
Binom == << <<1, 0, 0, 0, 0>>, <<5, 1, 0, 0, 0>>, <<10, 4, 1, 0, 0>>, <<10, 6, 3, 1, 0>>, <<5, 4, 3, 2, 1>> >>
RenormLog(p, L) == [k \in 1..6 |-> IF k = 6 THEN MulS(Pow10(Expo(p, L)), p[6])
                      ELSE SumF(LAMBDA j : IF j <= k THEN Binom[k][j] * MulS(p[j], LPow(L, k - j)) ELSE 0, 5)]

(* first-order propagation, log models: rows of the Jacobian at scale 1000; the last row  *)
(* is divided by the new constant term: ln(10) L^(6-j), and 1/g                            *)
JLog(k, j, L, g) == IF k < 6 THEN (IF j <= k THEN (Binom[k][j] * LPow(L, k - j)) \div 100 ELSE 0)
                    ELSE IF j < 6 THEN (LPow(L, 6 - j) * 23026) \div 1000000 ELSE (S * 1000) \div g
VarOf(J(_), C) == LET row(j) == SumF(LAMBDA k : J(k) * C[j][k], 6)
                  IN SumF(LAMBDA j : (row(j) \div 10) * J(j), 6)     \* scale 10^5
(* the same at scale S; A: rows of a factor of the covariance, C = sum of outer products of its rows *)
JLogS(k, j, L, g) == IF k < 6 THEN (IF j <= k THEN Binom[k][j] * LPow(L, k - j) ELSE 0)
                     ELSE IF j < 6 THEN MulS(LPow(L, 6 - j), 230259)
                     ELSE (IF g < 0 THEN -1 ELSE 1) * FDiv(S, Abs(g), 5)
Through(k, row, L, g) == SumF(LAMBDA j : JLogS(k, j, L, g) * row[j], 6)
RECURSIVE Shrink(_)
Shrink(t) == IF t <= 20000 THEN 1 ELSE 10 * Shrink(t \div 10)
(* e is the length of the propagated factor *)
ErrorIs(e, k, A, L, g) ==
    LET t == TLCEval([r \in DOMAIN A |-> Through(k, A[r], L, g)])
        sh == Shrink(MaxSeq([r \in DOMAIN A |-> Abs(t[r])]))
        w == sh * Root(SumF(LAMBDA r : (t[r] \div sh) * (t[r] \div sh), Len(A)))
        tt == 20 + (60 * MaxSeq([r \in DOMAIN A |-> MaxSeq([j \in 1..6 |-> Abs(A[r][j])])]))     \* rounding of the powers
    IN IF w <= tt THEN e = NaN \/ e <= 2 * tt ELSE Near(e, w, (w \div 600) + (3 * sh) + tt)
=============================================================================
