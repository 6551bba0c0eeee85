"""Stokes I fits, reference changes and fractional spectra."""
import math
import numpy as np
from vlib import fx, fxa, NAN, PINF as INF
import RMutils.util_misc as M


def A(v, s=1000.0):
    return np.array([np.nan if x == NAN else np.inf if x == INF else x / s for x in v], dtype=float)


def one_fit(inp, f, I, d, order, fall):
    r = M.fit_StokesI_model(f, I, d, order, inp["fn"])
    m = M.calculate_StokesI_model(r, fall)
    p = np.asarray(r.params)
    return {"ord": int(r.polyOrd), "chi": fx(r.chiSq, 1000), "aic": fx(r.AIC, 1000), "dof": int(r.dof),
            "chired": fx(r.chiSqRed, 1000), "ref": fx(r.reference_frequency_Hz / inp["funit"], 100), "m": fxa(m, 1e5),
            "unusedzero": bool(len(p) == 6 and np.all(p[:5 - int(r.polyOrd)] == 0)), "status": int(r.fitStatus)}


def run_fit(inp):
    f = np.array(inp["f"], float) * inp["funit"] if not inp["geom"] else np.array([10 ** (t / inp["geom"]) for t in inp["t"]]) * 8e8
    I, d = A(inp["i"]), A(inp["d"])
    args = [f, I, d]; bef = [a.copy() for a in args]
    fixed = [one_fit(inp, f, I, d, p, f) for p in range(0, inp["limit"] + 1)]
    dyn = one_fit(inp, f, I, d, -inp["limit"], f)
    g = np.isfinite(I) & np.isfinite(d)
    sub = one_fit(inp, f[g], I[g], d[g], -inp["limit"], f)
    return {"fixed": fixed, "dyn": dyn, "sub": sub, "untouched": bool(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef)))}


def result(p, cov, ref, fn):
    return M.FitResult(params=np.array(p, float), fitStatus=1, chiSq=1.0, chiSqRed=1.0, AIC=3.0, polyOrd=5, nIter=3, reference_frequency_Hz=ref,
                       dof=4, pcov=np.array(cov, float), perror=np.sqrt(np.diag(np.array(cov, float))), fit_function=fn)


def run_renorm(inp):
    fn, f0 = inp["fn"], inp["f0"]
    r0 = result([v / 1e5 for v in inp["p"]], inp["cov"], f0, fn)
    bef = (np.array(r0.params), np.array(r0.pcov), np.array(r0.perror))
    if fn == "linear":
        freqs = np.array([a / 1e5 for a in inp["args"]]) * f0
        fac = [a / b for a, b in inp["steps"]]
    else:
        freqs = np.array([10 ** (a / 1e5) for a in inp["args"]]) * f0
        fac = [10 ** (a[0] / 1e5) for a in inp["steps"]]
    cur, params, values, refok = r0, [], [], True
    values.append(fxa(M.calculate_StokesI_model(r0, freqs), 1e5))
    ref = f0
    first = None
    for x in fac:
        ref = ref * x
        cur = M.renormalize_StokesI_model(cur, ref)
        if first is None: first = cur
        params.append(fxa(cur.params, 1e5)); refok &= cur.reference_frequency_Hz == ref and cur.fit_function == fn
        values.append(fxa(M.calculate_StokesI_model(cur, freqs), 1e5))
    direct = M.renormalize_StokesI_model(r0, ref)
    back = M.renormalize_StokesI_model(cur, f0)
    x = fac[0]
    pe = np.asarray(first.perror, float)
    errn, var = [], []
    if fn == "linear":
        errn = [fx((pe[k] / x ** (5 - k)) ** 2, 1000) for k in range(6)]
    else:
        var = [fx(pe[k] ** 2, 1e4) for k in range(5)] + [fx((pe[5] / first.params[5]) ** 2, 1e4)]
    un = all(np.array_equal(a, b) for a, b in zip(bef, (np.array(r0.params), np.array(r0.pcov), np.array(r0.perror))))
    return {"params": params, "values": values, "refok": bool(refok), "direct": fxa(direct.params, 1e5), "back": fxa(back.params, 1e5),
            "errn": errn, "var": var, "untouched": bool(un)}


def run_prop(inp):
    A, L, g = np.array(inp["fac"], float), inp["steps"][0][0] / 1e5, inp["gscale"]
    D = np.array([1, 1, 1, 1, 1, g])
    p = np.array([v / 1e5 for v in inp["p"]]) * D
    r = result(p, A.T @ A * np.outer(D, D), inp["f0"], "log")
    n = M.renormalize_StokesI_model(r, inp["f0"] * 10 ** L)
    e = np.asarray(n.perror, float).copy()
    e[5] = e[5] / abs(n.params[5])
    return {"err": fxa(e, 1e5)}


def run_frac(inp):
    f = np.array(inp["f"], float) * 1e8
    dt = "float%d" % inp["nbits"]
    arrs = [A(inp[k]).astype(dt) for k in ("i", "q", "u", "d", "dq", "du")]
    I, Q, U, dI, dQ, dU = arrs
    mod = None
    kw = {}
    if inp["mode"] == "model":
        mod = A(inp["model"], 1e5); kw["modStokesI"] = mod
    args = [f] + arrs + ([mod] if mod is not None else [])
    bef = [a.copy() for a in args]
    fn = "bogus" if inp["mode"] == "fail" else inp["fn"]
    m, q, u, dq, du, r = M.create_frac_spectra(f, I, Q, U, dI, dQ, dU, polyOrd=inp["ord"], fit_function=fn, **kw)
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))
    n = len(f)
    return {"shape": bool(all(np.shape(x) == (n,) for x in (m, q, u, dq, du))), "m": fxa(m, 1e5), "q": fxa(q, 1e5), "u": fxa(u, 1e5),
            "dq": fxa(dq, 1e5), "du": fxa(du, 1e5), "status": int(r.fitStatus), "untouched": bool(un)}


def execute(inp):
    return {"fit": run_fit, "renorm": run_renorm, "prop": run_prop, "frac": run_frac}[inp["op"]](inp)


# ------------------------------------------------------------------ generators
def basis(t, pmax, w):
    """orthonormal polynomials on the channels, weights w"""
    x = (t - t.mean()) / (np.ptp(t) / 2)
    out = []
    for k in range(pmax + 1):
        v = x ** k
        for b in out:
            v = v - b * np.sum(b * v * w)
        out.append(v / np.sqrt(np.sum(v * v * w)))
    return out


def pattern_fit(rng, down, limit, fn):
    """data for which raising the order to p reduces chi^2 by more/less than 2 as down[p-1] says"""
    n = rng.choice([10, 12, 14])
    geom = 0
    if fn == "log" and rng.random() < .6:
        geom = rng.choice([25, 20]); t = list(range(n)); f = [8] * n
    else:
        f = sorted(rng.sample(range(8, 30), n)); t = f
    if rng.random() < .3: t = t[::-1]; f = f[::-1]
    d = [rng.choice([20, 30, 50])] * n if rng.random() < .5 else [rng.randint(20, 80) for _ in range(n)]
    bad = [rng.random() < .12 for _ in range(n)] if rng.random() < .6 else [False] * n
    if sum(not b for b in bad) < 8: bad = [False] * n
    g = np.array([not b for b in bad])
    tt = np.array(t, float)
    x = tt if fn == "linear" else (tt if geom else np.log10(np.array(f, float)))
    dd = np.array(d) / 1000.0
    I0 = rng.choice([1.0, 2.0, 5.0])
    w = np.where(g, 1 / dd ** 2, 0) if fn == "linear" else np.where(g, (I0 / dd) ** 2, 0)
    B = basis(x[g], 5, w[g])
    tot = np.zeros(g.sum())
    for p in range(1, 6):
        amp2 = rng.uniform(5, 60) if down[p - 1] else rng.uniform(.05, 1.2)
        tot = tot + rng.choice([-1, 1]) * math.sqrt(amp2) * B[p]
    I = np.zeros(n)
    I[g] = I0 + tot if fn == "linear" else I0 * np.exp(tot)
    # components above order 5: noise orthogonal enough
    I[g] += np.array([rng.gauss(0, .3) for _ in range(g.sum())]) * dd[g] * (rng.random() < .6)
    i = [int(round(v * 1000)) for v in I]
    for j in range(n):
        if bad[j]:
            r = rng.random()
            if r < .5: i[j] = NAN
            elif r < .6: i[j] = INF
            elif r < .8: i[j] = rng.randint(-5000, 5000); d[j] = rng.choice([NAN, INF])
            else: i[j] = NAN; d[j] = NAN
    narrow = max(f) < 2 * min(f) and not geom
    optmax = (3 if fn == "linear" else 2 if geom else -1)
    if narrow: optmax = min(optmax, 2)
    return dict(op="fit", f=f, t=t, geom=geom, funit=rng.choice([1e8, 1.3e8]) if not geom else 8e8, i=i, d=d, fn=fn, limit=limit, optmax=optmax)


def psd(rng):
    n = 6
    if rng.random() < .35:
        C = [[0] * n for _ in range(n)]
        for k in rng.sample(range(n), rng.choice([1, 1, 2])): C[k][k] = rng.choice([9, 25, 40])
        return C
    if rng.random() < .45:
        i, j = rng.sample(range(n), 2); s = rng.choice([-1, 1])
        C = [[0] * n for _ in range(n)]
        C[i][i] = C[j][j] = 25; C[i][j] = C[j][i] = 20 * s
        return C
    a = [[rng.choice([0, 0, 1, -1, 2]) for _ in range(n)] for _ in range(n)]
    C = [[sum(a[k][i] * a[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    return C


def renorm_case(rng, fn=None, p=None, steps=None):
    wide = fn is None and rng.random() < .12          # a band of several octaves, or a decade
    fn = fn or ("log" if wide else rng.choice(["linear", "log"]))
    lin = fn == "linear"
    if wide: p = [0, 0, 0, rng.choice([0, rng.randint(-6000, 6000)]), rng.randint(-90000, 60000), rng.randint(30000, 190000)]
    if p is None:
        p = [rng.choice([0, rng.randint(-60000, 60000)]) for _ in range(5)] + [rng.choice([1, 1, 1, -1]) * rng.randint(30000, 190000)]
    if steps is None:
        tot, steps = (1.0 if lin else 0), []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if lin:
                a, b = rng.choice([(5, 4), (4, 5), (9, 10), (11, 10), (6, 5), (7, 8), (21, 20), (1, 1)])
                if not .7 <= tot * a / b <= 1.4: continue
                tot *= a / b; steps.append([a, b])
            else:
                L = rng.choice([-20000, -5000, 800, 5000, 12000, 20000, 25000, 0])
                if abs(tot + L) > 25000: continue
                tot += L; steps.append([L])
        if rng.random() < .08: steps = [rng.choice([[2001, 2000], [999, 1000]])] if lin else [[rng.choice([20, -10])]]     # a hair away
        if not steps: steps = [[1, 1]] if lin else [[0]]
    args = [rng.randint(60000, 140000) for _ in range(4)] if lin else [rng.randint(-30000, 30000) * (4 if wide else 1) for _ in range(4)]
    cov = psd(rng)
    return dict(op="renorm", fn=fn, p=p, steps=steps, args=args, cov=cov, covmax=max(abs(v) for r in cov for v in r), f0=rng.choice([1e9, 1.4e9, 8.87e8]))


def prop_case(rng):
    """uncertainties far from the reference, where every term of the propagation counts"""
    p = [rng.randint(-30000, 30000) for _ in range(5)] + [rng.choice([1, 1, -1]) * rng.randint(30000, 190000)]
    L = rng.choice([-100000, 100000, 50000, -50000, 20000, -20000, 5000, rng.randint(-100000, 100000)])
    if rng.random() < .5:
        A = [[rng.randint(-9, 9) for _ in range(6)] for _ in range(rng.choice([1, 1, 2, 6]))]
    else:                        # two correlated parameters, of the weight each has at this distance
        i, j = rng.sample(range(6), 2)
        A = [[0] * 6]
        for k in (i, j): A[0][k] = rng.choice([-1, 1]) * max(1, min(3000, int(round(3 / max(1e-3, abs(L / 1e5)) ** min(5 - k, 2)))))
    return dict(op="prop", p=p, steps=[[L]], fac=A, f0=rng.choice([1e9, 1.4e9]), gscale=rng.choice([1.0, 1.0, 1e-6, 1e4]))


def frac_case(rng, q=None, m=None):
    n = len(q) if q else rng.choice([3, 6, 10])
    f = sorted(rng.sample(range(8, 30), n))
    r = lambda a, b: rng.randint(a, b)
    d = dict(op="frac", f=f, fn=rng.choice(["log", "linear"]), ord=rng.choice([0, 1, 2, -2, -3]), nbits=64, mode="fit", model=[])
    qq = [v if v == NAN else v * r(1, 300) for v in q] if q else [r(-1500, 1500) if rng.random() > .1 else NAN for _ in range(n)]
    d["q"] = qq
    d["u"] = [r(-1500, 1500) if rng.random() > .1 else NAN for _ in range(n)]
    d["dq"] = [r(1, 90) if rng.random() > .1 else NAN for _ in range(n)]
    d["du"] = [r(1, 90) if rng.random() > .1 else NAN for _ in range(n)]
    d["d"] = [r(5, 90) for _ in range(n)]
    kind = rng.random()
    if kind < .4: d["i"] = [r(800, 1900) for _ in range(n)]                          # ordinary
    elif kind < .6: d["i"] = [int(1500 - 3000 * k / (n - 1) * rng.uniform(.7, 1.2)) for k in range(n)]; d["fn"] = "linear"; d["ord"] = rng.choice([1, 2, -2])   # crosses zero
    elif kind < .8: d["i"] = [r(-60, 120) for _ in range(n)]                        # faint
    else: d["i"] = [r(100, 1900) for _ in range(n)]; d["d"] = [r(5, 1500) for _ in range(n)]
    if .4 <= kind < .6 and n > 4 and rng.random() < .5:                              # ... where I is flagged
        for k in range(n):
            if d["i"][k] < 60: d["i"][k] = NAN
        if sum(v != NAN for v in d["i"]) < 4: d["i"] = [300] * n
    if n > 4 and rng.random() < .3:
        k = rng.randrange(n); d["i"][k] = NAN
    if n > 4 and rng.random() < .2:
        k = rng.randrange(n); d["d"][k] = NAN
    if m:
        d["mode"] = "model"; d["model"] = [v if v == NAN else v * 40000 for v in m]
    elif rng.random() < .2:
        d["mode"] = "model"; d["model"] = [rng.choice([r(20000, 190000), r(20000, 190000), 0, -r(2000, 50000), NAN]) for _ in range(n)]
    elif rng.random() < .08:
        d["mode"] = "fail"
    if n == 3 and d["mode"] == "fit": d["ord"] = rng.choice([0, 1])
    return d
