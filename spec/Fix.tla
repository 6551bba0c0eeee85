-------------------------------- MODULE Fix ---------------------------------
(* Fixed point numbers as they appear in recorded events.                       *)
(* NaN and infinities are sentinels; |x| <= Big for ordinary numbers, so that    *)
(* differences of two logged numbers fit in TLC's 32 bit integers.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NaN  == 1050000000
PInf == 1060000000
NInf == -1060000000
Big  == 1000000000
IsNum(x) == x <= Big /\ x >= -Big
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol
(* same value, where NaN equals NaN *)
Same(a, b, tol) == \/ a = b
                   \/ Near(a, b, tol)
(* rounded division, b > 0 *)
RDiv(a, b) == (a + (b \div 2)) \div b
(* a*10^n/b rounded down, digit by digit; 0 < b < 2*10^8 *)
FDiv(a, b, n) == LET RECURSIVE D(_, _, _)
                     D(q, r, k) == IF k = 0 THEN q ELSE D(10 * q + (10 * r) \div b, (10 * r) % b, k - 1)
                 IN D(a \div b, a % b, n)
Add(a, b) == a + b
SumF(F(_), n) == FoldLeftDomain(LAMBDA acc, i : acc + F(i), 0, [i \in 1..n |-> i])
SumSeq(s) == FoldLeft(Add, 0, s)
MaxSeq(s) == FoldLeft(Max2, s[1], s)
MinSeq(s) == FoldLeft(Min2, s[1], s)
(* names of the clauses of record c that are false *)
Broken(c) == {n \in DOMAIN c : ~c[n]}
Report(l, bad) == \A n \in bad : PrintT("FAIL|" \o ToString(l) \o "|" \o n)
(* integer square root *)
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Root(n) == RootIn(n, 0, 46340)
=============================================================================
