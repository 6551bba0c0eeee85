"""Robust statistics, percentiles, moments, complexity metrics."""
import contextlib, io, math, warnings
import numpy as np
from vlib import fx, fxa, NAN
from synthlib import UL, unit_phi
import matplotlib
matplotlib.use("Agg")
import RMutils.util_misc as M
import RMutils.util_RM as R
import RMtools_1D.do_RMsynth_1D as S1
import RMtools_1D.do_RMclean_1D as C1
import RMtools_1D.rmtools_bwdepol as B

C = 299792458.0
quiet = lambda *a, **k: None
ALL = lambda v: np.array([np.nan if x == NAN else float(x) for x in v])
freqs = lambda lam: C / np.sqrt(np.array(lam, dtype=float) * UL)
UNITS = [1.0, 1.0, 2.0 ** -20, 2.0 ** 9, 1e-6]


def clear(x):
    return np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)


def run_mad(inp):
    dt = inp["dtype"]
    # rows: the vectors along the axis; arranged as an array of the wanted shape with that axis
    v = np.array([ALL(r) for r in inp["rows"]])
    if dt == "int": v = v.astype(int)
    elif dt == "float32": v = v.astype("float32")
    v = v * (1 if dt == "int" else inp["unit"])
    if dt == "float32": v = v.astype("float32")
    n = v.shape[1]
    if inp["axis"] == "1d": a, kw = v[0], {}
    elif inp["axis"] == "none": a, kw = v[0], dict(axis=None)
    else:
        a = np.moveaxis(v.reshape(tuple(inp["outer"]) + (n,)), -1, inp["axis"])
        kw = dict(axis=inp["axis"])
    bef = a.copy()
    if inp["c"] != 6745: mk = dict(kw, c=inp["c"] / 1e4)
    else: mk = kw
    u = 1 if dt == "int" else inp["unit"]
    mad = clear(M.MAD(a, **mk)) / u
    med, mean, std = (clear(f(a, **kw)) / u for f in (M.nanmedian, M.nanmean, M.nanstd))
    m = len(v) if inp["axis"] not in ("1d", "none") else 1
    ok = all(np.size(x) == m for x in (mad, med, mean, std)) and (m == 1 or np.shape(mad) == tuple(inp["outer"]))
    return dict(exc="", shape=bool(ok), mad=fxa(mad.ravel(), 1000), med=fxa(med.ravel(), 1000), mean=fxa(mean.ravel(), 1000), var=fxa(std.ravel() ** 2, 1000), untouched=bool(np.array_equal(a, bef, equal_nan=True)))


def run_pct(inp):
    x = np.array(inp["x"], float) * inp["unit"]
    p = ALL(inp["p"]) / inp["ps"]
    return dict(exc="", v=[fx(R.cdf_percentile(x, p, q / inp["ps"] * 100.0) / inp["unit"], 1000) for q in inp["q"]])


def run_mom(inp):
    a, x = np.array(inp["a"], float), np.array(inp["x"], float)
    u, o = inp["unit"], inp["shift"] * inp["xunit"]
    ph = np.exp(1j * np.array(inp["ang"]) / 10.0)
    out = []
    for f, rev in ((a * u, 0), (a * ph * u, 0), ((a * ph * u)[::-1], 1)):
        for off in (0, o):
            xx = x * inp["xunit"] + off
            if rev: xx = xx[::-1]
            out.append(M.calc_mom2_FDF(f, xx)); out.append(R.measure_fdf_complexity(phiArr=xx, FDF=f))
    return dict(exc="", m=[fx((float(v) / inp["xunit"]) ** 2, 1e4) for v in out])


def scatter(m, p, suf, scale):
    """the posterior of one data set: sampled logs, and the reported values in samples"""
    s = np.asarray(p["sigmaAddArr" + suf], float); pr = np.asarray(p["probArr" + suf], float)
    n = len(s); st = s[-1] / n
    with np.errstate(all="ignore"):
        lg = np.log10(pr / pr.max())
    top = int(np.argmax(pr))
    at = sorted({0, 1, n // 2, n - 1, n // 7, top, max(0, top - n // 40), min(n - 1, top + n // 40), min(n - 1, top + n // 9)})
    step = s[-1] / scale * 1000
    return dict(at=[i + 1 for i in at], lg=[fx(lg[i], 1e4) if np.isfinite(lg[i]) else -1000000000 for i in at], chi=[fx(p["chiSqRedArr" + suf][i], 1e4) for i in at],
                p=[int(round(v)) for v in pr / pr.sum() * 1e8], area=fx(np.sum(pr) * (s[1] - s[0]), 1e5), step=fx(1000.0 * (s[1] - s[0]) / st * n, 1),
                mid=fx(m["sigmaAdd" + suf] / st, 1e4), lo=fx(m["dSigmaAddMinus" + suf] / st, 1e4), hi=fx(m["dSigmaAddPlus" + suf] / st, 1e4), one=fx(scale / st, 1e4))


def run_sig(inp):
    u = inp["unit"]
    y, d = ALL(inp["y"]) * u, np.array(inp["d"], float) * u
    x = np.arange(len(y)) * .01
    bef = [x.copy(), y.copy(), d.copy()]
    kw = {}
    if inp["ymed"] != NAN: kw["yMed"] = inp["ymed"] * u
    if inp["noise"]: kw["noise"] = inp["noise"] * u
    m, p = R.calc_sigma_add(x, y, d, nSamp=inp["n"], suffix="Z", **kw)
    ok = len(p["sigmaAddArrZ"]) == inp["n"] == len(p["probArrZ"]) and np.array_equal(p["yArrZ"], bef[1], equal_nan=True)
    return dict(exc="", shape=bool(ok), s=scatter(m, p, "Z", u), untouched=bool(all(np.array_equal(a, b, equal_nan=True) for a, b in zip((x, y, d), bef))))


def run_cx(inp):
    u = inp["unit"]
    f = freqs(inp["lam"])
    q, uu = ALL(inp["q"]) / 1000 * u, ALL(inp["u"]) / 1000 * u
    dq, du = ALL(inp["dq"]) / 1000 * u, ALL(inp["du"]) / 1000 * u
    args = [f, q, uu, dq, du]; bef = [a.copy() for a in args]
    psi0 = inp["psi2"] / 4.0          # half degrees of twice the angle
    m, p = R.measure_qu_complexity(f, q, uu, dq, du, inp["p"] / 1000.0 * u, psi0, inp["rm"] * unit_phi(inp["g"], 1))
    ok = all(np.shape(p["yArr" + s]) == f.shape for s in "QU") and len(p["yArrC"]) == 2 * len(f)
    return dict(exc="", shape=bool(ok), yq=fxa(p["yArrQ"], 1000), yu=fxa(p["yArrU"], 1000), yc=fxa(p["yArrC"], 1000), dy=fxa(p["dyArrQ"], 1000),
                Q=scatter(m, p, "Q", 1), U=scatter(m, p, "U", 1), C=scatter(m, p, "C", 1), untouched=bool(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))))


KEYS = [a + s for s in "QUC" for a in ("sigmaAdd", "dSigmaAddMinus", "dSigmaAddPlus")]


def run_run(inp):
    f = freqs(inp["lam"]); n = len(f)
    lam = np.array(inp["lam"], float) * UL
    rng = np.random.RandomState(inp["seed"])
    P = inp["p"] / 1000.0 * np.exp(2j * (inp["ang"] / 100.0 + inp["rm"] * unit_phi(1, 1) * lam)) + inp["p2"] / 1000.0 * np.exp(2j * (1 - inp["rm"] * unit_phi(1, 1) * lam))
    d = inp["sig"] / 1000.0
    P = P + d * inp["extra"] / 10 * (rng.randn(n) + 1j * rng.randn(n))
    q, u = P.real.copy(), P.imag.copy()
    for j in inp["bad"]: (q if j % 2 else u)[j] = np.nan
    dq, du = np.full(n, d), np.full(n, d) * inp["asym"]
    lobe = 3.8 / (lam.max() - lam.min())
    st, half = lobe / 5, max(10, int(1.3 * abs(inp["rm"]) * unit_phi(1, 1) / (lobe / 5)))
    kw = dict(phiMax_radm2=half * st, dPhi_radm2=st)
    I = np.full(n, inp["i0"] / 10.0)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if inp["tool"] == "bw":
            w = np.abs(np.diff(f)).min() * np.ones(n)
            data = np.array([f, w, I, I * q, I * u, .01 * I, I * dq, I * du] if inp["si"] else [f, w, q, u, dq, du])
            md, ad = B.run_adjoint_rmsynth(data, polyOrd=0, log=quiet, **kw)
            fp = md["ampPeakPIfit"] / md["Ifreq0"]
        else:
            data = [f, I, I * q, I * u, .01 * I, I * dq, I * du] if inp["si"] else [f, q, u, dq, du]
            md, ad = S1.run_rmsynth(data, polyOrd=0, log=quiet, **kw)
            fp = md["ampPeakPIfitEff"] / md["Ifreq0"]
        own, _ = R.measure_qu_complexity(f, q, u, dq, du, fp, md["polAngle0Fit_deg"], md["phiPeakPIfit_rm2"])
        a, b = [md[k] for k in KEYS], [own[k] for k in KEYS]
        if inp["clean"]:
            mc, ac = C1.run_rmclean(md, ad, -3, log=quiet)
            cc = np.asarray(ac["ccArr"]); x = np.asarray(ac["phiArr_radm2"], float)
            A = np.abs(cc)
            with np.errstate(all="ignore"):
                mu = (A * x).sum() / A.sum()
                b.append(math.sqrt((A * (x - mu) ** 2).sum() / A.sum()) / lobe if A.sum() > 0 else float("nan"))
            a.append(mc["mom2CCFDF"] / lobe)
    return dict(exc="", run=[fx(v, 1e5) for v in a], own=[fx(v, 1e5) for v in b])


def execute(inp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {"mad": run_mad, "pct": run_pct, "mom": run_mom, "sig": run_sig, "cx": run_cx, "run": run_run}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
def mad_case(rng, rows=None):
    axis = rng.choice(["1d", "none", 0, 1, -1, 2, 0, 1, -2, -3])
    dt = rng.choice(["float64", "float64", "float32", "int"])
    if axis in ("1d", "none"): outer, m = [], 1
    else:
        nd = rng.choice([2, 3]) if axis in (0, 1, -1, -2) else 3
        outer = [rng.randint(1, 3) for _ in range(nd - 1)]; m = int(np.prod(outer))
    n = len(rows[0]) if rows else rng.choice([1, 2, 3, 4, 7, 12])
    top = rng.choice([3, 90])
    R_ = [list(r) for r in (rows or [])][:m]
    while len(R_) < m: R_.append([NAN if dt != "int" and rng.random() < .2 else rng.randint(-top, top) for _ in range(n)])
    if dt == "int" and any(v == NAN for r in R_ for v in r): dt = "float64"
    if rng.random() < .05 and dt != "int": R_[0] = [NAN] * n
    return dict(op="mad", rows=R_, axis=axis, outer=outer, dtype=dt, c=rng.choice([6745, 6745, 10000, 5000]), unit=rng.choice(UNITS))


def pct_case(rng):
    n = rng.choice([1, 2, 4, 9])
    x = sorted(rng.sample(range(-30, 30), n))
    ps = rng.choice([8, 1000])
    p = sorted(rng.randint(0, ps) for _ in range(n))
    if rng.random() < .6: p[-1] = ps
    q = [2, 4, 6, 8, 1] if ps == 8 else rng.sample(range(1, 1000), 5)
    if ps == 1000:
        p = [v - v % 2 for v in p]; q = [v | 1 for v in q]
    return dict(op="pct", x=x, p=p, ps=ps, q=q, unit=rng.choice(UNITS))


def mom_case(rng, a=None):
    a = [abs(v) for v in a if v != NAN] if a else [rng.choice([0, 0, 0, rng.randint(1, 60)]) for _ in range(rng.choice([1, 3, 9, 14]))]
    if sum(a) == 0: return None
    n = len(a)
    x = sorted(rng.sample(range(-40, 40), n)) if rng.random() < .5 else list(range(-3, -3 + n))
    return dict(op="mom", a=a, x=x, ang=[rng.randint(0, 62) for _ in a], unit=rng.choice(UNITS), xunit=rng.choice([1.0, 8.0, 2.0 ** -6, 333.0]), shift=rng.choice([0, 50, -1000]))


def sig_case(rng, y=None):
    n = len(y) if y else rng.choice([2, 3, 5, 9, 20])
    y = list(y) if y else [rng.choice([0, rng.randint(-3, 3), rng.randint(-14, 14)]) for _ in range(n)]
    d = [rng.randint(1, 5) for _ in y] if rng.random() < .6 else [1] * len(y)
    nan = any(v == NAN for v in y)
    if rng.random() < .2: y[rng.randrange(len(y))] = NAN; nan = True
    if sum(v != NAN for v in y) < 2: return None
    return dict(op="sig", y=y, d=d, n=rng.choice([20, 50, 137, 200, 1000]), ymed=rng.choice([0, 0, rng.randint(-2, 2)]) if nan or rng.random() < .6 else NAN, noise=rng.choice([0, 0, 1]), unit=rng.choice(UNITS))


def cx_case(rng):
    n = rng.choice([3, 6, 12])
    lam = sorted(rng.sample(range(20, 110), n), reverse=rng.random() < .6)
    g = rng.choice([1, 2]); rm = rng.randint(-40, 40); psi2 = rng.randrange(720)
    p = rng.randint(0, 900)
    zero = int(rng.random() < .35)
    d = rng.choice([20, 60, 200])
    s = 0 if zero and rng.random() < .5 else .4 * d if zero else d * rng.choice([1, 3, 6])
    q, u = [], []
    for v in lam:
        k = math.radians((psi2 + g * rm * v) / 2.0)
        e = lambda: max(-1, min(1, rng.gauss(0, .4))) * s
        q.append(int(round(p * math.cos(k) + e()))); u.append(int(round(p * math.sin(k) + e())))
    dq = [rng.randint(d, int(1.5 * d)) for _ in lam]; du = [rng.randint(d, int(1.5 * d)) for _ in lam]
    for j in range(n):
        if rng.random() < .08: q[j] = NAN
        if rng.random() < .08: u[j] = NAN
    if sum(v != NAN for v in q) < 2 or sum(v != NAN for v in u) < 2: return None
    return dict(op="cx", lam=lam, g=g, rm=rm, psi2=psi2, p=p, q=q, u=u, dq=dq, du=du, zero=zero, unit=1.0 if rng.random() < .6 else rng.choice([2.0 ** -8, 4.0]))


def run_case(rng):
    n = rng.choice([8, 15, 30])
    lam = sorted(rng.sample(range(20, 140), n), reverse=rng.random() < .7)
    tool = rng.choice(["rm", "rm", "bw"])
    return dict(op="run", tool=tool, clean=int(tool == "rm" and rng.random() < .5), lam=lam, p=rng.randint(50, 600), p2=rng.choice([0, 0, 100]), rm=rng.randint(-60, 60), ang=rng.randint(0, 314), sig=rng.choice([2, 20]), extra=rng.choice([0, 8, 10, 30]),
                bad=rng.sample(range(n), rng.choice([0, 0, 1])), asym=1 if tool == "bw" else rng.choice([1, 1, 1.5]), si=int(rng.random() < .5), i0=rng.randint(5, 90), seed=rng.randrange(10 ** 6))
