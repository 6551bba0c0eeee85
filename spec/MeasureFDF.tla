----------------------------- MODULE MeasureFDF -----------------------------
(* Peak measurement of one Faraday spectrum, in exact integer arithmetic.        *)
(*   amp  moduli (integers),  fdf  <<re, im>>,  phi  integer depths               *)
EXTENDS Fix, Trig
Interior(amp) == 2..(Len(amp) - 1)
Peaks(amp) == {i \in Interior(amp) : \A k \in Interior(amp) : amp[k] <= amp[i]}

(* parabola through three points: curvature and slope numerators, common denominator *)
D1(phi, i) == phi[i] - phi[i - 1]
D2(phi, i) == phi[i + 1] - phi[i]
An(amp, phi, i) == (amp[i - 1] - amp[i]) * D2(phi, i) + (amp[i + 1] - amp[i]) * D1(phi, i)
Bn(amp, phi, i) == (amp[i + 1] - amp[i]) * D1(phi, i) * D1(phi, i) - (amp[i - 1] - amp[i]) * D2(phi, i) * D2(phi, i)
Den(phi, i) == D1(phi, i) * D2(phi, i) * (D1(phi, i) + D2(phi, i))
Flat(amp, phi, i) == An(amp, phi, i) = 0
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* vertex position *1000 and amplitude *1000 *)
VertexPhi(amp, phi, i) == LET a == An(amp, phi, i) b == Bn(amp, phi, i)
                          IN 1000 * phi[i] + FDiv(-b * Sgn(a), 2 * Abs(a), 3)
VertexAmp(amp, phi, i) == LET a == An(amp, phi, i) b == Bn(amp, phi, i)
                          IN 1000 * amp[i] - Sgn(a) * FDiv(b * b, 4 * Abs(a) * Den(phi, i), 3)
MaxAbsPhi(phi) == Max2(Abs(phi[1]), Abs(phi[Len(phi)]))
OutOfRange(amp, phi, i) == Abs(VertexPhi(amp, phi, i)) > 1000 * MaxAbsPhi(phi)

(* a reported peak (10^-5 samples from the centre, amplitude in thousandths) agrees with a spectrum *)
(* whose moduli, rounded, are a (at most 20000), sampled at the integers ix                            *)
PeakFits(a, ix, peak, pamp, i) ==
    LET cur == Abs(An(a, ix, i))
        vp == VertexPhi(a, ix, i)
        va == VertexAmp(a, ix, i)
        top == 1000 * Max2(Abs(ix[1]), Abs(ix[Len(ix)]))
        off == Abs(vp - 1000 * ix[i]) \div 1000 + 1       \* distance of the vertex from the sample
    IN IF cur < 60 THEN TRUE
       ELSE IF Abs(Abs(vp) - top) <= 20 THEN TRUE
       ELSE IF Abs(vp) > top THEN peak = NaN
       ELSE /\ Near(peak \div 100, vp, 3 + (8000 * off) \div cur)
            /\ Near(pamp, va, 2500 + Abs(va) \div 2000 + 2000 * (off + off * off))
PeakAgrees(a, ix, peak, pamp) == \E i \in Interior(a) : (\A k \in Interior(a) : a[k] <= a[i] + 2) /\ PeakFits(a, ix, peak, pamp, i)

(* linear interpolation of component c of the spectrum at depth p (thousandths), result in hundredths *)
Seg(phi, p) == CHOOSE j \in 1..(Len(phi) - 1) : (p >= 1000 * phi[j] \/ j = 1) /\ (p < 1000 * phi[j + 1] \/ j = Len(phi) - 1)
Interp(fdf, phi, p, c) == LET j == Seg(phi, p)
                              h == phi[j + 1] - phi[j]
                          IN 100 * fdf[j][c] + ((fdf[j + 1][c] - fdf[j][c]) * (p - 1000 * phi[j])) \div (10 * h)

(* median of a sequence of integers, times 2 *)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Median2(s) == LET t == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
(* median absolute deviation times 4 *)
Mad4(s) == LET m2 == Median2(s) IN Median2([k \in DOMAIN s |-> Abs(2 * s[k] - m2)])
(* samples kept when the peak is masked: 2*ceil(fwhm/step) samples either side, the upper end open *)
FwhmChan(f10, step) == (f10 + 10 * step - 1) \div (10 * step)
Kept(n, i, fc) == {k \in 1..n : k < Max2(1, i - 2 * fc) \/ k >= Min2(n + 1, i + 2 * fc)}
Values(fdf, Z) == LET idx == SetToSortSeq(Z, <) IN [k \in 1..(2 * Len(idx)) |-> IF k <= Len(idx) THEN fdf[idx[k]][1] ELSE fdf[idx[k - Len(idx)]][2]]
NoiseMad4(fdf, i, fc) == LET n == Len(fdf) Z == Kept(n, i, fc)
                         IN Mad4(Values(fdf, IF 10 * Cardinality(Z) < 3 * n THEN 1..n ELSE Z))

(* uncertainty of the derotated angle over the one of the angle, squared, *10^4:
   (N-1)/(N-2) + l0^2*N/((N-2)*var),  var = (S2 - S1^2/N)/(N-1) *)
RatioSq(lam, l0) == LET N == Len(lam) S1 == SumF(LAMBDA j : lam[j], N) S2 == SumF(LAMBDA j : lam[j] * lam[j], N)
                    IN FDiv(N - 1, N - 2, 4) + FDiv(l0 * l0 * N * (N - 1), (N - 2) * (N * S2 - S1 * S1), 4) * N
(* the same for a reference num/den; lam distinct, S the channels in use *)
RatioOver(lam, S, num, den) ==
    LET idx == SetToSeq(S) N == Len(idx) S1 == SumF(LAMBDA j : lam[idx[j]], N) S2 == SumF(LAMBDA j : lam[idx[j]] * lam[idx[j]], N)
        h == FDiv(num, den, 2)
        sq == (h * h) \div 100
    IN FDiv(N - 1, N - 2, 4) + (FDiv((sq * N) * (N - 1), (N - 2) * ((N * S2) - (S1 * S1)), 2) * N)
(* bias correction: eff2 = (A^2 - Aeff^2)/noise^2 *10^4, snr100 = S/N *100 *)
BiasFits(eff2, snr100, thr100) == IF snr100 >= thr100 + 3 THEN Near(eff2, 23000, 80 + ((snr100 \div 100) * (snr100 \div 100)) \div 100) ELSE IF snr100 <= thr100 - 3 THEN eff2 = 0 ELSE TRUE
=============================================================================
