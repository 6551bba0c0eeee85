"""Lattice instances of peak measurement."""
import math
import numpy as np
from vlib import fx, cxa, NAN
import RMutils.util_RM as U

AXES = [(1, 0), (0, 1), (-1, 0), (0, -1)]
PYTH = [(3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3)]


def put(rng, a, allow=True):
    if a % 5 == 0 and allow and rng.random() < .7:
        x, y = rng.choice(PYTH)
        return [a // 5 * x, a // 5 * y]
    x, y = rng.choice(AXES)
    return [a * x, a * y]


def execute(inp):
    u, s = inp["u"], 2.0 ** inp["pow"]
    fdf = np.array([complex(*v) for v in inp["fdf"]]) * s
    if inp["c64"]: fdf = fdf.astype("complex64")
    phi = np.array(inp["phi"], dtype=float) * u
    l0 = math.radians(inp["d"]) / u
    UL = l0 / inp["l0"] if inp["l0"] else 1e-3
    lam = np.array(inp["lam"], dtype=float) * UL
    args = [fdf, phi, lam]
    bef = [a.copy() for a in args]
    kw = dict(snrDoBiasCorrect=inp["thr10"] / 10.0) if inp["thr10"] != 50 or inp["thr_given"] else {}
    r = U.measure_FDF_parms(fdf, phi, inp["f10"] / 10.0 * u, dFDF=(inp["noise10"] / 10.0 * s) if inp["noise10"] else None,
                            lamSqArr_m2=lam, lam0Sq=l0, **kw)
    un = all(np.array_equal(a, b) for a, b in zip(args, bef))
    A, N, P = r["ampPeakPIfit"], r["dAmpPeakPIfit"], r["phiPeakPIfit_rm2"]
    with np.errstate(all="ignore"):
        A, N, P = np.float64(A), np.float64(N), np.float64(P)
        ratio2 = (np.float64(r["dPolAngle0Fit_deg"]) / np.float64(r["dPolAngleFit_deg"])) ** 2
        eff2 = (A ** 2 - np.float64(r["ampPeakPIfitEff"]) ** 2) / N ** 2
        dpa2 = np.float64(r["dPolAngleFit_deg"]) * np.pi / 180 * 2 * A
        dphi2 = np.float64(r["dPhiPeakPIfit_rm2"]) * 2 * A
        # in the harness' S/N < bias threshold case the corrected amplitude may be NaN (A^2 < 2.3 sigma^2): keep
        snr = np.float64(r["snrPIfit"]) * N / A
    return {"untouched": bool(un), "phi": fx(P / u, 1000), "amp": fx(A / s, 1000), "mad": fx(r["dFDFcorMAD"] / s, 1000),
            "noise": fx(N / s, 1000), "snr": fx(snr, 1000), "dphi2": fx(dphi2 / s / u, 1000), "pa": fx(r["polAngleFit_deg"], 1000),
            "pa0": fx(r["polAngle0Fit_deg"], 1000), "dpa2": fx(dpa2 / s, 1000), "ratio2": fx(ratio2, 10000),
            "eff2": fx(eff2, 10000), "idx": fx(r["indxPeakPIfit"], 1000)}


def mk(rng, amp, step, off, f10, **kw):
    n = len(amp)
    d = dict(op="measure", amp=amp, fdf=[put(rng, a) for a in amp], phi=[(k - n // 2) * step + off for k in range(n)], f10=f10,
             u=rng.choice([0.25, 1.0, 3.7, 40.0]), pow=rng.choice([-26, -10, -3, 0, 2, 12]), c64=rng.choice([0, 0, 1]),
             noise10=rng.choice([0, 5, 10, 20, 50, 100, 300]), thr10=50, thr_given=rng.choice([0, 1]),
             d=rng.choice([0, 1, 7, -3, 30]), l0=rng.choice([3, 5, 8]))
    d["lam"] = sorted(rng.sample(range(1, 12), rng.choice([3, 4, 5, 7])))
    if d["d"] <= 0: d["d"] = abs(d["d"])
    if d["d"] == 0: d["l0"] = 0
    d.update(kw)
    if d["f10"] % (10 * step) == 0: d["f10"] += 3
    return d


def rand_case(rng):
    n = rng.choice([3, 5, 7, 9, 15, 21, 41])
    top = rng.choice([20, 100, 300])
    kind = rng.random()
    if kind < .5:
        amp = [rng.randint(0, max(1, top // 6)) for _ in range(n)]
        i = rng.choice([0, 1, n - 2, n - 1, rng.randrange(n)])
        for k in range(n):
            amp[k] = max(amp[k], int(top * math.exp(-((k - i) / rng.choice([1., 1.5, 2.5])) ** 2)))
    elif kind < .8:
        amp = [5 * rng.randint(0, top // 5) for _ in range(n)]
    else:
        amp = [rng.randint(0, top) for _ in range(n)]
    if max(amp[1:-1]) == 0: amp[1] = 5
    step = rng.choice([1, 1, 2, 3])
    return mk(rng, amp, step, rng.choice([0, 0, 0, 4, -6]), rng.choice([7, 13, 24, 35, 57]) * step)


def tie_case(rng):
    """symmetric peak whose S/N is exactly the threshold, or just beside it"""
    n = rng.choice([5, 9, 15])
    amp = [rng.randint(0, 3) for _ in range(n)]
    k = rng.randrange(1, n - 1)
    noise10, thr10 = rng.choice([(10, 50), (20, 50), (50, 50), (20, 30), (10, 80), (80, 25)])
    a = noise10 * thr10 // 100
    amp[k] = a + rng.choice([0, 0, 1, -1]); amp[k - 1] = amp[k + 1] = rng.randint(0, 3)
    return mk(rng, amp, 1, 0, 24, noise10=noise10, thr10=thr10, thr_given=1)
