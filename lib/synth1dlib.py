"""One-dimensional RM synthesis: instances and execution."""
import contextlib, io, math, warnings
import numpy as np
from vlib import fx, fxa, cxa, NAN, PINF
from synthlib import UL
import matplotlib
matplotlib.use("Agg")
import RMtools_1D.do_RMsynth_1D as S1

C = 299792458.0
quiet = lambda *a, **k: None


def freqs(lam):
    return C / np.sqrt(np.array(lam, dtype=float) * UL)


def used(inp):
    return [j for j in range(len(inp["lam"])) if inp["q"][j] != NAN and inp["u"][j] != NAN and inp["w"][j] > 0]


def den_num(inp):
    if inp["super"]: return 1, 0
    us = used(inp)
    return sum(inp["w"][j] for j in us), sum(inp["w"][j] * inp["lam"][j] for j in us)


def imodel(inp, f):
    lam = np.array(inp["lam"], float)
    k = inp["ikind"]
    if k == "one": return np.ones(len(lam))
    if k == "const": return np.full(len(lam), inp["i0"] / 100.0)
    if k == "lam": return inp["i0"] * lam / 100.0
    if k == "linf": return inp["i0"] / 100.0 + inp["i1"] / 100.0 / np.sqrt(lam)


def build(inp):
    """data columns for run_rmsynth"""
    f = freqs(inp["lam"])
    n = len(f)
    m = imodel(inp, f)
    q = np.array([np.nan if v == NAN else float(v) for v in inp["q"]])
    u = np.array([np.nan if v == NAN else float(v) for v in inp["u"]])
    if inp["mode"] == "variance":
        s = np.array([1 / math.sqrt(w * inp["wscale"]) if w > 0 else 0.1 for w in inp["w"]])
    else:
        s = np.array([math.sqrt(v / 100.0) for v in inp["nv"]])
    a = np.abs(m) * s
    dQ, dU = a * (1 + inp["asym"] / 10.0), a * (1 - inp["asym"] / 10.0)
    for j, k in enumerate(inp["bad"]):
        if k == "nanQ": dQ[j] = np.nan
        elif k == "nanU": dU[j] = np.nan
        elif k == "infQ": dQ[j] = np.inf
        elif k == "infU": dU[j] = np.inf
        elif k == "both": dQ[j] = dU[j] = np.nan
    I = m.copy()
    dI = np.abs(m) * 0.01
    for j in inp["nani"]: I[j] = np.nan
    if inp["ikind"] == "linf":
        I = m * (1 + 0.3 * np.cos(np.arange(n)))        # the supplied model is not the data
    k = 2.0 ** inp.get("pow", 0)                        # whatever unit the fluxes come in
    return f, k * I, k * (q * m), k * (u * m), k * dI, k * dQ, k * dU, k * m


def run_run(inp):
    den, num = den_num(inp)
    unit = 2.0 ** inp.get("pow", 0)
    fu = unit if inp["ikind"] == "one" else 1.0         # without Stokes I the result is in the unit of the fluxes
    uphi = inp["g"] * math.pi * den / (720.0 * UL)
    f, I, Q, U, dI, dQ, dU, m = build(inp)
    data = [f, Q, U, dQ, dU] if inp["cols"] == 5 else [f, I, Q, U, dI, dQ, dU]
    bef = [d.copy() for d in data]
    kw = {}
    if inp["ikind"] == "linf": kw["modStokesI"] = m; bef.append(m.copy())
    step, half = inp["step"] * uphi, inp["half"]
    name = ["Jy/beam", "K", ""][inp["half"] % 3]
    md, ad = S1.run_rmsynth(data, units=name, polyOrd=inp["ord"], phiMax_radm2=half * step, dPhi_radm2=step, weightType=inp["mode"],
                            fitRMSF=bool(inp["fitw"]), noStokesI=bool(inp["nosi"]), nBits=inp["nbits"], fit_function=inp["fn"],
                            super_resolution=bool(inp["super"]), log=quiet, verbose=False, **kw)
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(data + ([m] if "modStokesI" in kw else []), bef))
    phi, phi2 = np.asarray(ad["phiArr_radm2"], float), np.asarray(ad["phi2Arr_radm2"], float)
    fdf, rmsf = np.asarray(ad["dirtyFDF"]).astype(complex), np.asarray(ad["RMSFArr"]).astype(complex)
    wt = np.asarray(ad["weightArr"], float)
    dt = np.dtype("float%d" % inp["nbits"])
    ok = (phi.ndim == 1 and fdf.shape == phi.shape and rmsf.shape == phi2.shape and wt.shape == f.shape
          and ad["dirtyFDF"].dtype.itemsize == 2 * dt.itemsize and ad["phiArr_radm2"].dtype == dt)
    I0 = float(md["Ifreq0"])
    amp = np.abs(fdf); sc = 20000.0 / amp.max()
    A, N, P = float(md["ampPeakPIfit"]), float(md["dAmpPeakPIfit"]), float(md["phiPeakPIfit_rm2"])
    fw = float(md["fwhmRMSF"])
    R = (max(inp["lam"]) - min(inp["lam"])) * UL
    ws = inp["wscale"]
    lw = lambda x: fx(C / math.sqrt(UL) / x, 10000) if 0 else fx((C / x) ** 2 / UL, 10000)
    coef = [float(c) for c in md["polyCoeffs"].split(",")]
    psum = sum(coef) if inp["fn"] == "linear" else coef[5]
    rec = record(inp, md, data, kw, unit, fu)
    rec["units"] = bool(md["units"] == name)
    with np.errstate(all="ignore"):
        return {"rec": rec, "shape": bool(ok), "untouched": bool(un),
                "phi": fxa(phi / uphi, 100), "phi2": fxa(phi2 / uphi, 100), "fdf": cxa(fdf / I0 / fu, 1e5), "rmsf": cxa(rmsf, 1e5),
                "lam0": fx(float(md["lam0Sq_m2"]) / UL * den, 100), "lw0": lw(float(md["freq0_Hz"])), "f0": fx(float(md["freq0_Hz"]) / (C / math.sqrt(UL)), 1e6),
                "ifreq0": fx(I0 * fu / unit, 1e5), "psum": fx(psum * fu / unit, 1e5), "wt": fxa(wt / (ws if inp["mode"] == "uniform" else ws / fu ** 2), 1000),
                "noise2": fx((float(md["dFDFth"]) / I0 / fu) ** 2 * ws, 1e6), "nch": int(md["N_channels"]),
                "lwmax": lw(float(md["min_freq"])), "lwmin": lw(float(md["max_freq"])), "fwhm": fx(fw * R, 1000),
                "amp": [int(round(v * sc)) for v in amp], "peak": fx(P / uphi / inp["step"], 1e5), "pamp": fx(A * sc, 1000),
                "pa": fx(md["polAngleFit_deg"], 1000), "pa0": fx(md["polAngle0Fit_deg"], 1000),
                "dphi": fx(float(md["dPhiPeakPIfit_rm2"]) * 2 * A / N / fw, 1000), "dpa": fx(math.radians(float(md["dPolAngleFit_deg"])) * 2 * A / N, 1000),
                "ratio2": fx((np.float64(md["dPolAngle0Fit_deg"]) / np.float64(md["dPolAngleFit_deg"])) ** 2, 1e4),
                "eff2": fx((A ** 2 - np.float64(md["ampPeakPIfitEff"]) ** 2) / N ** 2, 1e4), "snr100": fx(A / N, 100),
                "snr": fx(float(md["snrPIfit"]) * float(md["dFDFth"]) / A, 1000), "fracpol": fx(float(md["fracPol"]) * I0 / float(md["ampPeakPIfitEff"]), 1000)}


def record(inp, md, data, kw, unit, fu):
    """what else the result says about the data: noise, channels, Stokes I model, complexity; next to the library's own fit of the same spectra"""
    if inp["nosi"] or inp["cols"] == 5:
        f, Q, U, dQ, dU = data if inp["cols"] == 5 else [data[i] for i in (0, 2, 3, 5, 6)]
        I, dI = np.ones_like(Q), np.zeros_like(Q)
    else: f, I, Q, U, dI, dQ, dU = data
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, q, u, dq, du, fit = S1.create_frac_spectra(freqArr=f, IArr=I, QArr=Q, UArr=U, dIArr=dI, dQArr=dQ, dUArr=dU, polyOrd=inp["ord"], fit_function=inp["fn"], **kw)
        if float(md["lam0Sq_m2"]) != 0 and not kw: fit = S1.renormalize_StokesI_model(fit, float(md["freq0_Hz"]))
        own = S1.measure_qu_complexity(freqArr_Hz=f, qArr=q, uArr=u, dqArr=dq, duArr=du, fracPol=float(md["fracPol"]), psi0_deg=float(md["polAngle0Fit_deg"]),
                                       RM_radm2=float(md["phiPeakPIfit_rm2"]))[0]
        d = (dQ + dU) / 2.0
        top = np.nanmax(np.where(np.isfinite(d), d, np.nan))
        def pair(a, b, n=1e5):
            a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
            sc = np.nanmax(np.abs(b[np.isfinite(b)])) if np.any(np.isfinite(b) & (b != 0)) else 1.0
            return [fxa(a / sc, n), fxa(b / sc, n)]
        num = lambda t: [float(x) for x in t.split(",")]
        ks = sorted(own)
        return dict(d=fxa(d / top, 1e6), dqu=fx(float(md["dQU"]) / top, 1e6), fr=fxa(f / f.max(), 1e6), cw=fx(float(md["median_channel_width"]) / f.max(), 1e6),
                    coef=pair(num(md["polyCoeffs"]), fit.params), cerr=pair(num(md["polyCoefferr"]), fit.perror), ord=[int(md["polyOrd"]), int(fit.polyOrd)],
                    stat=[fx(float(md["IfitStat"]), 1), fx(float(fit.fitStatus), 1)], chi=pair(md["IfitChiSqRed"], fit.chiSqRed), fn=bool(md["fit_function"] == inp["fn"]),
                    cplx=[pair(md[k], own[k]) if k in md else [[0], [NAN]] for k in ks])


def run_grid(inp):
    lam = np.array(inp["lam"], float)
    f = freqs(inp["lam"]); n = len(f)
    R = (lam.max() - lam.min()) * UL
    fw = 2.0 / ((lam.max() + lam.min()) * UL) if inp["super"] else 3.8 / R
    ns = inp["ns10"] / 10.0
    kw = {}
    unit = fw / ns
    if inp["dset"]:
        kw["dPhi_radm2"] = unit * inp["dmul"] / 10.0; unit = kw["dPhi_radm2"]
    if inp["half100"]: kw["phiMax_radm2"] = unit * inp["half100"] / 100.0
    q = np.cos(lam / 9); u = np.sin(lam / 9); d = np.full(n, .1)
    md, ad = S1.run_rmsynth([f, q, u, d, d], nSamples=ns, nBits=inp["nbits"], log=quiet, super_resolution=bool(inp["super"]), **kw)
    phi = np.asarray(ad["phiArr_radm2"], float)
    dp = phi[-1] / ((len(phi) - 1) // 2)
    return {"n": len(phi), "mid": fx(phi[len(phi) // 2] / dp, 1e5), "sym": bool(np.allclose(phi, -phi[::-1], atol=1e-5 * abs(dp))),
            "unif": bool(np.allclose(np.diff(phi), dp, rtol=1e-3)), "stp": fx(dp / (unit if inp["dset"] else fw), 1e7)}


def execute(inp):
    return {"run": run_run, "grid": run_grid}[inp["op"]](inp)


# ------------------------------------------------------------------ generators
def mk_run(rng, data=None, noise=None, mode=None, stokesI=None):
    n = rng.choice([4, 5, 7, 10, 13])
    m = len(data) if data else 0
    lam = sorted(rng.sample(range(20, 110), n), reverse=rng.random() < .7)
    where = rng.sample(range(n), m)
    q = [rng.randint(-9, 9) for _ in range(n)]; u = [rng.randint(-9, 9) for _ in range(n)]
    mode = mode or rng.choice(["variance", "variance", "uniform"])
    stokesI = rng.random() < .6 if stokesI is None else stokesI
    w = [rng.randint(1, 5) for _ in range(n)] if mode == "variance" else [1] * n
    bad = ["ok"] * n; nani = []
    D = dict(zip(where, data or [])); Z = dict(zip(where, noise or []))
    for j in range(n):
        d = D.get(j) or (rng.choice(["nanQ", "nanU", "nanI", "nanAll"]) if rng.random() < (.1 if not data else .03) else "ok")
        z = Z.get(j) or (rng.choice(["nanQ", "nanU", "infQ", "infU", "both"]) if mode == "variance" and rng.random() < (.1 if not data else .03) else "ok")
        if d in ("nanQ", "nanAll"): q[j] = NAN
        if d in ("nanU", "nanAll"): u[j] = NAN
        if d in ("nanI", "nanAll"): nani.append(j)
        bad[j] = z
        if z != "ok": w[j] = 0
    d = dict(op="run", lam=lam, q=q, u=u, w=w, bad=bad, nani=nani, mode=mode, wscale=rng.choice([1, 25, 400]) if mode == "variance" else 1,
             nv=[rng.randint(1, 400) for _ in range(n)], asym=rng.choice([0, 0, 2, -3]), g=rng.choice([1, 1, 2, 3]), step=rng.randint(1, 3),
             half=rng.choice([3, 5, 8, 12]), ord=rng.choice([0, 1, 2, -2]), fn=rng.choice(["log", "linear"]), nosi=0, super=0, fitw=0,
             nbits=rng.choice([32, 64]), cols=7, i0=rng.randint(20, 400), i1=0, ikind="const")
    if len(used(d)) < 3: return None
    if max(lam) == min(lam): return None
    if not stokesI:
        d["ikind"] = "one"
        if rng.random() < .5: d["cols"] = 5
        else: d["nosi"] = 1; 
        d["nani"] = []
    else:
        good = n - len(nani)
        r = rng.random()
        if d["ord"] > 0 and good < d["ord"] + 3: d["ord"] = 0
        if d["ord"] < 0 and good < 5: d["ord"] = 0
        if r < .45 and d["ord"] != 0 and good >= 4:
            d["ikind"] = "lam"; d["fn"] = "log"; d["i0"] = rng.randint(1, 12) * rng.choice([1, 1, 1, -1])
        elif r < .65:
            d["ikind"] = "linf"; d["i0"] = rng.choice([100, 300, -200]); d["i1"] = rng.choice([100, 900, 2000, -400])
            if any(abs(d["i0"] + d["i1"] / math.sqrt(x)) < 20 for x in lam): d["i1"] = 0
            d["nani"] = []
    if rng.random() < .1 and d["ikind"] != "linf":
        d["super"] = 1
    if all(q[j] == 0 and u[j] == 0 for j in used(d)): return None
    if rng.random() < .15: d["fitw"] = 1
    if rng.random() < .4: d["pow"] = rng.choice([-22, -10, 8])
    d["tol"] = 150 if d["nbits"] == 64 else 1500
    if d["ikind"] == "lam": d["tol"] += 600
    den, num = den_num(d)
    return d


def mk_grid(rng):
    n = rng.choice([3, 6, 15])
    lam = sorted(rng.sample(range(20, 110), n), reverse=rng.random() < .7)
    d = dict(op="grid", lam=lam, ns10=rng.choice([10, 35, 73, 100, 200]), super=int(rng.random() < .2), dset=int(rng.random() < .4), dmul=10,
             half100=rng.choice([0, 0, 700, 730, 1234, 4000, 250]), nbits=rng.choice([32, 64]))
    if d["dset"] and d["half100"]: d["dmul"] = rng.choice([3, 10, 27])
    return d
