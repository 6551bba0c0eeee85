------------------------------ MODULE RMClean -------------------------------
(* RM-CLEAN of one spectrum as a state machine.                                  *)
(*                                                                              *)
(* Values are fixed point, scale S = 10^5.  The spread function r is sampled on  *)
(* the doubled grid, c is the index of its peak; the component at index i sees   *)
(* r shifted so that the peak falls on i:  Shifted(k, i) = r[c + k - i].         *)
(*                                                                              *)
(*   Subtract(i)   one iteration: gain * residual[i] becomes a component         *)
(*   stage "main"  strongest sample of the whole spectrum, down to the cutoff    *)
(*   stage "win"   strongest sample near a main-stage component, down to window  *)
EXTENDS Fix
S == 100000
(* a*b/S for |a| < 2*10^6, |b| <= 2*10^5, without overflow; exact to +-2 *)
MulS(a, b) == (a * (b \div 1000)) \div 100 + (a * (b % 1000)) \div S
CMulRe(a, b) == MulS(a[1], b[1]) - MulS(a[2], b[2])
CMulIm(a, b) == MulS(a[1], b[2]) + MulS(a[2], b[1])
CMul(a, b) == <<CMulRe(a, b), CMulIm(a, b)>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CNear(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)

(* 2^(-m/144), scale S *)
LOCAL P2 == << 100000, 99520, 99042, 98566, 98093, 97622, 97153, 96687, 96222, 95760, 95300, 94843,
           94387, 93934, 93483, 93034, 92587, 92143, 91700, 91260, 90822, 90386, 89952, 89520,
           89090, 88662, 88236, 87813, 87391, 86971, 86554, 86138, 85724, 85313, 84903, 84495,
           84090, 83686, 83284, 82884, 82486, 82090, 81696, 81303, 80913, 80525, 80138, 79753,
           79370, 78989, 78610, 78232, 77856, 77483, 77111, 76740, 76372, 76005, 75640, 75277,
           74915, 74556, 74198, 73841, 73487, 73134, 72783, 72433, 72085, 71739, 71395, 71052,
           70711, 70371, 70033, 69697, 69362, 69029, 68698, 68368, 68040, 67713, 67388, 67064,
           66742, 66422, 66103, 65785, 65469, 65155, 64842, 64531, 64221, 63912, 63605, 63300,
           62996, 62694, 62392, 62093, 61795, 61498, 61203, 60909, 60616, 60325, 60036, 59747,
           59460, 59175, 58891, 58608, 58326, 58046, 57768, 57490, 57214, 56939, 56666, 56394,
           56123, 55854, 55585, 55318, 55053, 54788, 54525, 54264, 54003, 53744, 53486, 53229,
           52973, 52719, 52466, 52214, 51963, 51713, 51465, 51218, 50972, 50727, 50484, 50241,
           50000 >>
RECURSIVE Half(_, _)
Half(x, n) == IF n = 0 \/ x = 0 THEN x ELSE Half((x + 1) \div 2, n - 1)
Pow2Neg(m) == IF m > 144 * 17 THEN 0 ELSE Half(P2[(m % 144) + 1], m \div 144)
(* unit-peak Gaussian of full width f grid steps (f divides 12) at distance d steps: 2^-(2d/f)^2 *)
Gauss(d, f) == Pow2Neg((576 * d * d) \div (f * f))

(* integer square root, for the exhaustive model (conformance events log moduli) *)
RECURSIVE Sqrt(_, _, _)
Sqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Sqrt(n, m, hi) ELSE Sqrt(n, lo, m)
Mod(z) == Sqrt(z[1] * z[1] + z[2] * z[2], 0, 46340)

Shifted(r, c, k, i) == r[c + k - i]
(* sum over components of component * kernel, real part in [1] *)
Convolved(cc, K(_, _), k) ==
    FoldLeftDomain(LAMBDA acc, i : IF cc[i] = <<0, 0>> THEN acc ELSE CAdd(acc, CMul(cc[i], K(k, i))), <<0, 0>>, cc)
Model(cc, r, c, k) == Convolved(cc, LAMBDA kk, i : Shifted(r, c, kk, i), k)
Restored(cc, f, k) == Convolved(cc, LAMBDA kk, i : <<Gauss(kk - i, f), 0>>, k)

(* one iteration *)
Component(resid, i, gain) == <<MulS(resid[i][1], gain), MulS(resid[i][2], gain)>>
AfterResid(resid, r, c, i, comp) == [k \in DOMAIN resid |-> CSub(resid[k], CMul(comp, Shifted(r, c, k, i)))]
AfterCC(cc, i, comp) == [cc EXCEPT ![i] = CAdd(@, comp)]

(* the windows: samples around the components of the main stage.  Half a width is     *)
(* f2/20 samples (f2 = ten times the full width in samples); an end may fall to        *)
(* either side of its sample by rounding: May are the samples some rounding admits,    *)
(* Must those every rounding admits.                                                   *)
CeilDiv(a, b) == -((-a) \div b)
MayWindow(cc, f2) == {k \in DOMAIN cc : \E i \in DOMAIN cc : cc[i] # <<0, 0>> /\
                        (k = i \/ (k - i >= (-f2 - 1) \div 20 /\ k - i <= f2 \div 20))}
MustWindow(cc, f2) == {k \in DOMAIN cc : \E i \in DOMAIN cc : cc[i] # <<0, 0>> /\
                        (k = i \/ (k - i >= CeilDiv(1 - f2, 20) /\ k - i <= CeilDiv(f2, 20) - 2))}
=============================================================================
