------------------------------- MODULE Robust -------------------------------
(* Robust statistics, percentiles of a sampled distribution, moments of a component  *)
(* spectrum, and the posterior of an additional scatter term.                        *)
EXTENDS StokesI
Good(s) == SelectSeq(s, LAMBDA v : v # NaN)
(* twice the median *)
Med2(s) == LET t == SortSeq(s, <) n == Len(s) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
(* four times the median absolute deviation *)
Mad4(s) == LET m == Med2(s) IN Med2([i \in DOMAIN s |-> Abs(2 * s[i] - m)])
(* n^2 times the variance *)
Var2(s) == LET n == Len(s) IN n * SumF(LAMBDA i : s[i] * s[i], n) - SumSeq(s) * SumSeq(s)
(* K^2 times the squared second moment of amplitudes a at depths x, K = sum of a *)
Mom2K2(a, x) == LET K == SumSeq(a) IN (K * SumF(LAMBDA i : a[i] * x[i] * x[i], Len(a))) - (SumF(LAMBDA i : a[i] * x[i], Len(a)) * SumF(LAMBDA i : a[i] * x[i], Len(a)))
(* where the cumulative curve p (at positions x) first exceeds level q (same scale as p): position * 1000; NaN if nowhere *)
Crossing(x, p, q) == IF \A i \in DOMAIN p : p[i] <= q THEN NaN ELSE
    LET i == CHOOSE k \in DOMAIN p : p[k] > q /\ \A j \in 1..(k - 1) : p[j] <= q
    IN IF i = 1 THEN 1000 * x[1] ELSE 1000 * x[i - 1] + FDiv((x[i] - x[i - 1]) * (q - p[i - 1]), p[i] - p[i - 1], 3)

(* logarithm to base ten of n >= 1, scale 10^5, error about 2 *)
LOCAL TA == <<100000, 125893, 158489, 199526, 251189, 316228, 398107, 501187, 630957, 794328>>
LOCAL TB == <<100000, 102329, 104713, 107152, 109648, 112202, 114815, 117490, 120226, 123027>>
LOCAL TC == <<100000, 100231, 100462, 100693, 100925, 101158, 101391, 101625, 101859, 102094>>
LOCAL Below(T, x) == CHOOSE k \in 1..10 : T[k] <= x /\ (k = 10 \/ (IF k < 10 THEN T[k + 1] > x ELSE TRUE))
RECURSIVE Lg(_)
Lg(n) == IF n >= 1000000 THEN S + Lg(n \div 10)
         ELSE IF n < 100000 THEN Lg(n * 10) - S
         ELSE LET a == Below(TA, n)  n1 == FDiv(n, TA[a], 5)
                  b == Below(TB, n1) n2 == FDiv(n1, TB[b], 5)
                  c == Below(TC, n2) n3 == FDiv(n2, TC[c], 5)
              IN (5 * S) + (10000 * (a - 1)) + (1000 * (b - 1)) + (100 * (c - 1)) + RDiv((n3 - S) * 4343, 10000)

(* log10 of the posterior of an additional scatter s for residuals r with errors d (all thousandths), up to a  *)
(* constant: 1/s times the product of normal densities of width sqrt(d^2 + s^2).  Scale 10^4.                   *)
Vt(d, s) == d * d + s * s
ChiTerm(r, d, s) == FDiv((r * r) \div 10, Max2(1, Vt(d, s) \div 10), 4)
Chi(r, d, s) == SumF(LAMBDA i : IF r[i] = NaN THEN 0 ELSE ChiTerm(r[i], d[i], s), Len(r))
(* half of chi squared in base ten logarithm: factor 0.217147 *)
Penalty(c) == IF c > 90000000 THEN ((c \div 1000) * 2171) \div 10 ELSE IF c > 9000000 THEN ((c \div 200) * 4343) \div 100 ELSE ((c \div 20) * 4343) \div 1000
LgPost(r, d, s, k) ==     \* k: proportional to s (the sample number), used for the 1/s term
    LET ls == SumF(LAMBDA i : IF r[i] = NaN THEN 0 ELSE Lg(Vt(d[i], s)) \div 2, Len(r))
    IN -((Lg(k) + ls) \div 10) - Penalty(Chi(r, d, s))
(* range of the data with their errors *)
Span(r, d) == LET g == {i \in DOMAIN r : r[i] # NaN}
                   hi == CHOOSE v \in {r[i] + d[i] : i \in g} : \A i \in g : r[i] + d[i] <= v
                   lo == CHOOSE v \in {r[i] - d[i] : i \in g} : \A i \in g : r[i] - d[i] >= v
               IN hi - lo
=============================================================================
