-------------------------------- MODULE QUFit -------------------------------
(* Summaries of a posterior and goodness of fit, as QU fitting reports them.        *)
(* Angles live on a circle of circumference 180 degrees = HC units.                 *)
EXTENDS QUModels
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
(* quantile f/100 of a sorted sequence, linear interpolation, times k *)
QuantK(s, f, k) == LET h == (Len(s) - 1) * f i == 1 + (h \div 100) r == h % 100
                   IN (k * s[i]) + (IF r = 0 THEN 0 ELSE RDiv(k * (s[i + 1] - s[i]) * r, 100))
Quant(s, f) == QuantK(s, f, 1)
Linear(s) == LET o == Sorted(s) m == Quant(o, 50)
             IN [med |-> m, plus |-> Quant(o, 84) - m, minus |-> m - Quant(o, 16)]
(* offset from ref on a circle of circumference hc *)
Off(a, ref, hc) == (((a - ref) + (hc \div 2)) % hc) - (hc \div 2)
Spread(s, ref, hc) == LET o == [i \in DOMAIN s |-> Off(s[i], ref, hc)] IN MaxSeq(o) - MinSeq(o)
(* concentrated: inside a quarter of the circle *)
Tight(s, hc) == \E k \in DOMAIN s : Spread(s, s[k], hc) <= hc \div 4
Circular(s, hc) == LET k == CHOOSE k \in DOMAIN s : Spread(s, s[k], hc) <= hc \div 4
                       ref == s[k]
                       lin == Linear([i \in DOMAIN s |-> Off(s[i], ref, hc)])
                   IN [lin EXCEPT !.med = (@ + ref) % hc]
(* chi^2 in 1/1000; a flagged channel contributes nothing; data and errors at scale 10^5 *)
Z(r, d) == RDiv(r * 1000, d)
Term(d, m, e) == IF d = NaN \/ e = NaN THEN 0 ELSE LET z == Z(d - m, e) IN IF Abs(z) > 44000 THEN 2000000 ELSE RDiv(z * z, 1000)
TermTol(d, m, e, t) == IF d = NaN \/ e = NaN THEN 0 ELSE LET z == Min2(44000, Abs(Z(d - m, e))) dz == RDiv(t * 1000, e) + 2
                       IN (((2 * z) + dz) * dz) \div 1000 + 1
Far(d, m, e) == d # NaN /\ e # NaN /\ Abs(Z(d - m, e)) > 44000
=============================================================================
