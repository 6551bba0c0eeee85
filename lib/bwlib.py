"""Bandwidth-depolarised channels: responses, adjoint synthesis, predictions and whole runs of rmtools_bwdepol."""
import contextlib, glob, io, json, math, os, warnings
import numpy as np
from vlib import fx, fxa, cxa, NAN
from cubelib import Scratch, cli
from synthlib import UL, unit_phi
import matplotlib
matplotlib.use("Agg")
import RMtools_1D.rmtools_bwdepol as B
import RMtools_1D.rmtools_bwpredict as BP

C = 299792458.0
quiet = lambda *a, **k: None
ALL = lambda v: np.array([np.nan if x == NAN else float(x) for x in v])


def freqs(lam):
    return C / np.sqrt(np.array(lam, dtype=float) * UL)


def used(inp):
    return [j for j in range(len(inp["lam"])) if inp["w"][j] not in (NAN, 0) and inp["q"][j] != NAN and inp["u"][j] != NAN]


def den_of(inp):
    return inp["l0"][1] if inp["l0"] else sum(inp["w"][j] for j in used(inp))


def widths(inp, f):
    """channel widths as the call passes them"""
    full = 2e-7 * np.array(inp["wid"], float) * f
    return {"array": full, "scalar": full[0], "none": None}[inp["wmode"]]


def phis(inp):
    return np.array(inp["phi"], float) * unit_phi(inp["g"], 1)


def same(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def run_rot(inp):
    f0 = freqs([inp["lam"]])[0]
    phi = phis(inp)
    c = np.array([f0 * (1 + (a + b) / 2e7) for a, b in inp["parts"]])
    w = np.array([f0 * (b - a) / 1e7 for a, b in inp["parts"]])
    r, s = [], []
    for k in range(len(phi)):
        r.append(B.rotation_operator(w, c, phi[k])); s.append(B.analytical_chan_pol(c, w, phi[k], p=inp["amp"] / 1000.0, **({"xi_knot": math.radians(inp["xi"])} if inp["xi"] else {})))
    r, s = np.array(r).T, np.array(s).T
    one = all(np.isclose(B.rotation_operator(float(w[i]), float(c[i]), float(phi[-1])), r[i][-1]) for i in range(len(c)))
    return dict(exc="", shape=bool(r.shape == (len(c), len(phi)) and one), r=[cxa(x, 1e5) for x in r], s=[cxa(x, 1e5) for x in s])


def weights(inp):
    return None if inp.get("wnone") else ALL(inp["w"])


def run_adj(inp):
    f = freqs(inp["lam"])
    q, u, phi, w = ALL(inp["q"]) * inp["unit"], ALL(inp["u"]) * inp["unit"], phis(inp), weights(inp)
    wd = widths(inp, f)
    kw = {}
    if wd is not None: kw["widths_Hz"] = wd
    if w is not None: w = w * inp["wunit"]; kw["weightArr"] = w
    if inp["l0"]: kw["lam0Sq_m2"] = inp["l0"][0] / inp["l0"][1] * UL
    args = [f, q, u, phi] + ([w] if w is not None else []) + ([wd] if isinstance(wd, np.ndarray) else [])
    bef = [a.copy() for a in args]
    fdf, l0, av = B.do_adjoint_rmsynth_planes(f, q, u, phi, log=quiet, **kw)
    us = used(inp)
    if inp["sig"]: d = np.array(inp["sig"], float) * inp["unit"]
    else: d = np.array([1 / math.sqrt(v) if v not in (NAN, 0) else 0 for v in inp["w"]]) * inp["unit"]
    for j in range(len(f)):
        if j not in us and inp["nand"]: d[j] = np.nan
    args.append(d); bef.append(d.copy())
    p2, sens, noise = B.adjoint_theory(av, d)
    ok = all(np.shape(x) == phi.shape for x in (fdf, p2, sens, noise)) and np.array_equal(p2, phi)
    return dict(exc="", shape=bool(ok), untouched=bool(same(args, bef)), fdf=cxa(np.asarray(fdf) / inp["unit"], 1e5), lam0=fx(l0 / UL, 1e4), sens=fxa(sens, 1e5),
                noise2=fxa((np.asarray(noise) / inp["unit"]) ** 2, 1e5))


def run_pred(inp):
    f = freqs(inp["lam"])
    wd = widths(inp, f)
    phi = phis(inp)
    step = phi[1] - phi[0]
    kw = dict(phiMax_radm2=phi[-1] + .3 * step, dPhi_radm2=step)
    if wd is not None: kw["widths_Hz"] = wd
    got = []
    if inp["cli"]:
        with Scratch("bwpredict"), contextlib.redirect_stdout(io.StringIO()):
            np.savetxt("chan.dat", np.array([f] if wd is None else [f, np.ones_like(f) * wd]).T, fmt="%.17g")
            keep = BP.plot_adjoint_info
            BP.plot_adjoint_info = lambda info, units="": got.append(info)
            try: cli(BP.main, ["x", "chan.dat", "-l", repr(float(phi[-1] + .3 * step)), "-d", repr(float(step)), "-f", "p.png"])
            finally: BP.plot_adjoint_info = keep; B.plt.close("all")
            info = got[0]
    else:
        with contextlib.redirect_stdout(io.StringIO()): info = BP.bwdepol_compute_predictions(f, **kw)
    p, s, n = info
    return dict(exc="", shape=bool(np.shape(p) == phi.shape and np.shape(s) == phi.shape and np.shape(n) == phi.shape),
                phi=fxa(np.asarray(p) / unit_phi(inp["g"], 1), 100), sens=fxa(s, 1e5), noise2=fxa(np.asarray(n) ** 2, 1e5))


def run_rmsf(inp):
    f = freqs(inp["lam"])
    phi, w, wd = phis(inp), weights(inp), widths(inp, f)
    uphi = unit_phi(inp["g"], 1)
    m = np.array([inp["q"][j] == NAN for j in range(len(f))])
    kw = {}
    if w is not None: w = w * inp["wunit"]; kw["weightArr"] = w
    if inp["l0"]: kw["lam0Sq_m2"] = inp["l0"][0] / inp["l0"][1] * UL
    if m.any() or inp["mask"]: kw["mskArr"] = m
    args = [f, phi, m] + ([w] if w is not None else []) + ([wd] if isinstance(wd, np.ndarray) else [])
    bef = [a.copy() for a in args]
    with contextlib.redirect_stdout(io.StringIO()):
        r, p2, fw, st = B.bwdepol_get_rmsf_planes(f, wd, phi, inp["src"] * uphi, double=bool(inp["double"]), fitRMSF=bool(inp["fit"]), log=quiet, **kw)
    R = (max(inp["lam"]) - min(inp["lam"])) * UL
    return dict(exc="", shape=bool(np.shape(r) == np.shape(p2) and np.size(fw) == 1), untouched=bool(same(args, bef)), phi2=fxa(np.asarray(p2) / uphi, 100), rmsf=cxa(r, 1e5), fwhm=fx(float(fw) * R, 1000))


def table(p):
    return np.loadtxt(p, unpack=True, ndmin=2)


def run_run(inp):
    lam = np.array(inp["lam"], float)
    f = freqs(inp["lam"])
    uphi = unit_phi(inp["g"], 1)
    n = len(f)
    m = {"one": np.ones(n), "const": np.full(n, inp["i0"] / 100.0), "lam": inp["i0"] * lam / 100.0}[inp["ikind"]] * inp["unit"]
    q, u = ALL(inp["q"]), ALL(inp["u"])
    us, u0 = used(inp), inp["u0"] * inp["unit"]
    s = np.array([u0 / math.sqrt(w) if w not in (0, NAN) else np.inf if w == 0 else np.nan for w in inp["w"]]) if inp["mode"] == "variance" else u0 * np.array(inp["sig"], float)
    dQ, dU = s * (1 + inp["asym"] / 10.0), s * (1 - inp["asym"] / 10.0)
    if inp["ikind"] == "one": m = np.ones(n)          # no Stokes I: Q and U are fractions (or fluxes) as they come
    a = inp["unit"] if inp["ikind"] == "one" else 1.0
    wd = widths(dict(inp, wmode="array"), f)
    cols = {5: [f], 6: [f, wd], 7: [f, m], 8: [f, wd, m]}[inp["cols"]] + [q * m * a, u * m * a] + ([] if inp["cols"] < 7 else [m * .01]) + [dQ, dU]
    if inp["nosi"]:
        cols[-6 if inp["cols"] == 7 else -6] = 7 * np.cos(np.arange(n)) + 1.5
    data = np.array(cols)
    bef = data.copy()
    step, half = inp["step"] * uphi, inp["half"]
    files = True
    with Scratch("bwrun"), contextlib.redirect_stdout(io.StringIO()):
        if inp["cli"]:
            np.savetxt("src.dat", data.T, fmt="%.17g")
            av = ["x", "src.dat", "-S", "-l", repr(half * step), "-d", repr(step), "-w", inp["mode"], "-o", inp["ord"]] + (["-i"] if inp["nosi"] else []) + (["-t"] if not inp["fit"] else []) + (["-v"] if inp["verb"] else [])
            kept = []
            real = B.run_adjoint_rmsynth
            def rec(*a, **k):
                r = real(*a, **k); kept.append(r); return r
            B.run_adjoint_rmsynth = rec
            try: cli(B.main, av)
            finally: B.run_adjoint_rmsynth = real
            md, ad = kept[0]
            t = table("src_FDFdirty.dat"); files &= bool(np.allclose(t[0], ad["phiArr_radm2"], rtol=1e-5) and np.allclose(t[1] + 1j * t[2], ad["dirtyFDF"], rtol=1e-4, atol=1e-5 * np.abs(ad["dirtyFDF"]).max()))
            t = table("src_RMSF.dat"); files &= bool(np.allclose(t[0], ad["phi2Arr_radm2"], rtol=1e-5) and np.allclose(t[1] + 1j * t[2], ad["RMSFArr"], rtol=1e-4, atol=1e-5 * np.abs(ad["RMSFArr"]).max()))
            t = table("src_weight.dat"); files &= bool(np.allclose(t[0], f, rtol=1e-5) and np.allclose(t[1], ad["weightArr"], rtol=1e-4))
            js = json.load(open("src_RMsynth.json")); dat = dict(x.rstrip("\n").split("=", 1) for x in open("src_RMsynth.dat"))
            def eq(x, y): return x == y or str(x) == str(y) or (isinstance(x, float) and math.isclose(x, float(y), rel_tol=1e-3, abs_tol=1e-30)) or (x != x and str(y).lower() == "nan")
            files &= all(k in js and eq(md[k], js[k]) for k in md) and all(k in dat and eq(md[k], dat[k]) for k in md)
        else:
            md, ad = B.run_adjoint_rmsynth(data, polyOrd=inp["ord"], phiMax_radm2=half * step, dPhi_radm2=step, weightType=inp["mode"], fitRMSF=bool(inp["fit"]), noStokesI=bool(inp["nosi"]), verbose=bool(inp["verb"]), log=quiet)
    phi, phi2 = np.asarray(ad["phiArr_radm2"]), np.asarray(ad["phi2Arr_radm2"])
    fdf, rmsf, wt = np.asarray(ad["dirtyFDF"]), np.asarray(ad["RMSFArr"]), np.asarray(ad["weightArr"])
    ok = phi.ndim == 1 and fdf.shape == phi.shape and rmsf.shape == phi2.shape and wt.shape == f.shape
    I0 = float(md["Ifreq0"])
    iu = 1.0 if inp["ikind"] == "one" else inp["unit"]
    amp = np.abs(fdf); sc = 20000.0 / amp[np.isfinite(amp)].max()
    A, D, P, fw = (float(md[k]) for k in ("ampPeakPIfit", "dAmpPeakPIfit", "phiPeakPIfit_rm2", "fwhmRMSF"))
    lw = lambda x: fx((C / x) ** 2 / UL, 10000)
    snr = float(md["snrPIfit"])
    with np.errstate(all="ignore"):
        return dict(exc="", shape=bool(ok), untouched=bool(np.array_equal(data, bef, equal_nan=True)), files=bool(files), phi=fxa(phi / uphi, 100), phi2=fxa(phi2 / uphi, 100), fdf=cxa(fdf / I0 / a, 1e5), rmsf=cxa(rmsf, 1e5),
                    lam0=fx(float(md["lam0Sq_m2"]) / UL, 1e4), lw0=lw(float(md["freq0_Hz"])), lwmax=lw(float(md["min_freq"])), lwmin=lw(float(md["max_freq"])), ifreq0=fx(I0 / iu, 1e5),
                    wt=fxa(wt * (u0 ** 2 if inp["mode"] == "variance" else 1), 1000), nch=int(md["N_channels"]),
                    medw=fx(float(md["median_channel_width"]) / float(np.median(wd)), 1e5), amp=[int(round(v * sc)) for v in amp], peak=fx(P / uphi / inp["step"], 1e5), pamp=fx(A * sc, 1000),
                    ratio2=fx((np.float64(md["dPolAngle0Fit_deg"]) / np.float64(md["dPolAngleFit_deg"])) ** 2, 1e4), eff2=fx((A ** 2 - np.float64(md["ampPeakPIfitEff"]) ** 2) / D ** 2, 1e4),
                    snr100=fx(A / D, 100), mad=fx(float(md["dFDFcorMAD"]) * sc, 1), fc=fx(fw / uphi / inp["step"], 1000), idx=fx(md["indxPeakPIfit"], 1000), damp2=fx((D / u0) ** 2, 1e5), snr=fx(snr * D / A, 1000), dphi=fx(float(md["dPhiPeakPIfit_rm2"]) * 2 * snr / fw, 1000), dpa=fx(math.radians(float(md["dPolAngleFit_deg"])) * 2 * snr, 1000),
                    fracpol=fx(float(md["fracPol"]) * I0 / A, 1000), pa=fx(md["polAngleFit_deg"], 1000), pa0=fx(md["polAngle0Fit_deg"], 1000))


def execute(inp):
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return {"rot": run_rot, "adj": run_adj, "pred": run_pred, "rmsf": run_rmsf, "run": run_run}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
UNITS = [1.0, 1.0, 2.0 ** -20, 2.0 ** 9, 1e-5]


def panels(g, phimax, lam, half):
    """Simpson panels for the phase range of the widest channel (half: relative half width in 1e-7), None if too wide"""
    rng = 2 * math.radians(g * phimax * lam / 2.0) * 2 * half / 1e7
    return 4 if rng < 1.2 else 8 if rng < 4 else 16 if rng < 10 else None


def rot_case(rng, c=None):
    if c:
        d = dict(op="rot", g=c["g"], lam=c["lam"], parts=c["parts"], phi=[c["phi"], -c["phi"]], n=8, rtol=70, amp=rng.randint(1, 3000), xi=rng.choice([0, 45, 90, -30, rng.randint(-179, 180)]))
        return d
    while True:
        lam, g = rng.randint(20, 120), rng.choice([1, 1, 2, 3])
        top = rng.choice([3, 20, 60, 200, 500])
        half = rng.choice([160, 1600, 16000, 160000, 640000])
        n = panels(g, top, lam, half)
        if n: break
    parts = []
    for _ in range(rng.choice([1, 2, 4])):
        h = rng.randint(1, half // 16) * 16
        o = rng.choice([0, rng.randint(-9, 9) * 16])
        parts.append([o - h, o + h])
    # zero: the response to an unrotated source; small depths: the limit towards it
    return dict(op="rot", g=g, lam=lam, parts=parts, phi=[rng.randint(-top, top) for _ in range(4)] + [0, 1], n=16, rtol=70, amp=rng.randint(1, 3000), xi=rng.choice([0, 45, 90, -30, rng.randint(-179, 180)]))


def channels(rng, n, top=None):
    while True:
        lam = sorted(rng.sample(range(20, 110), n), reverse=rng.random() < .7)
        g = rng.choice([1, 1, 2, 3])
        top = top or rng.choice([8, 20, 60])
        k = int(rng.choice([.05, .6, 2, 4, 7, 9.5, 9.5]) * 5e6 / math.radians(g * top * max(lam) / 2.0))
        k = min(k, 640000) // 32 * 32
        if k < 64: continue
        p = panels(g, top, max(lam), k)
        if p: break
    lo = rng.choice([1, k // (4 * p), k // (2 * p)])
    wid = [rng.randint(max(1, lo), k // (2 * p)) * 2 * p for _ in lam]
    wmode = "array"
    if rng.random() < .35:
        # one width in Hz for all: taken as a multiple of the spacing of the first two channels, or given
        f = freqs(lam)
        W = 2e-7 * wid[0] * f[0]
        wmode = "scalar"
        if rng.random() < .6 or True:
            wid = [max(1, int(round(1e7 * W / 2 / x / (2 * p)))) * 2 * p for x in f]
    return dict(g=g, lam=lam, wid=wid, wmode=wmode, n=p, top=top)


def none_channels(rng, n):
    """widths estimated from the first two channels: nearly equal spacing"""
    while True:
        a = rng.randint(60, 100)
        lam = sorted(rng.sample(range(a, a + 12), n)) if n > 2 else [a, a + 1]
        if rng.random() < .8: lam = lam[::-1]
        f = freqs(lam)
        W = f[1] - f[0]
        if not all(abs(W) / x < .05 for x in f): continue
        g, top = 1, rng.choice([8, 20])
        k = max(int(1e7 * abs(W) / 2 / x) for x in f)
        p = panels(g, top, max(lam), k)
        if p: break
    wid = [int(round(1e7 * abs(W) / 2 / x / (2 * p))) * 2 * p for x in f]
    return dict(g=g, lam=lam, wid=wid, wmode="none", n=p, top=top)


def fill(rng, d, flags=True):
    n = len(d["lam"])
    d["w"] = [rng.choice([1, 2, 3, 5] * 3 + [0, NAN]) for _ in range(n)]
    d["q"] = [rng.randint(-9, 9) for _ in range(n)]; d["u"] = [rng.randint(-9, 9) for _ in range(n)]
    if flags:
        for j in range(n):
            if rng.random() < .12: d[rng.choice("qu")][j] = NAN
    if not used(d): d["w"][0] = 2; d["q"][0] = 3; d["u"][0] = -4
    d["l0"] = [] if rng.random() < .75 else [rng.randint(20, 110), rng.choice([1, 2])]
    if rng.random() < .1: d["w"] = [1] * n; d["wnone"] = 1
    d["wunit"] = rng.choice([1.0, 1.0, 400.0, 1e-3, 1e9])
    d["unit"] = rng.choice(UNITS)
    return d


def adj_case(rng, c=None):
    if c:
        d = dict(op="adj", g=c["g"], lam=c["lam"], wid=[max(16, v) for v in c["wid"]], w=c["w"], wmode="array", n=8, top=12, l0=[], wunit=1.0, unit=1.0,
                 q=[rng.randint(-9, 9) for _ in c["lam"]], u=[rng.randint(-9, 9) for _ in c["lam"]])
        if not used(d): return None
        d["phi"] = [-9, 0, 3, 9, c["src"]]
    else:
        n = rng.choice([1, 2, 4, 7, 10])
        d = none_channels(rng, min(n, 6)) if n > 1 and rng.random() < .25 else channels(rng, n)
        d = fill(rng, dict(op="adj", **d))
        d["phi"] = [rng.randint(-d["top"], d["top"]) for _ in range(5)] + [0]
    d["sig"] = [] if rng.random() < .5 else [rng.randint(1, 6) for _ in d["lam"]]
    if d["wmode"] != "array" or d.get("wnone"): pass
    d["nand"] = int(rng.random() < .4)
    d["rtol"] = 90 if d["wmode"] == "array" else 300
    # adjoint_theory sees the data units; variance weights are 1/sigma^2 in the same units
    return d


def pred_case(rng):
    n = rng.choice([2, 3, 6, 12])
    d = none_channels(rng, min(n, 8)) if rng.random() < .4 else channels(rng, n)
    k = rng.randint(1, 9)
    step = max(1, d["top"] // k)
    phi = [i * step for i in range(k + 1)]
    return dict(d, op="pred", phi=phi, rtol=90 if d["wmode"] == "array" else 300, cli=int(rng.random() < .3))


def rmsf_case(rng):
    n = rng.choice([2, 3, 5, 8])
    d = none_channels(rng, min(n, 6)) if rng.random() < .25 else channels(rng, n, 60)
    d = fill(rng, dict(op="rmsf", **d), flags=False)
    d["mask"] = int(rng.random() < .3)
    for j in range(n if n <= len(d["lam"]) else len(d["lam"])):
        if rng.random() < .15: d["q"][j] = NAN; d["mask"] = 1
    if not used(d): return None
    m = rng.choice([3, 4, 5, 7]); step = max(1, d["top"] // (2 * m + 4))
    d["phi"] = [(k - m // 2) * step for k in range(m)]
    d["src"] = rng.choice([0, rng.randint(-d["top"], d["top"])])
    d["double"] = int(rng.random() < .7); d["fit"] = int(rng.random() < .15)
    d["rtol"] = 90 if d["wmode"] == "array" else 300
    return d


def run_case(rng):
    n = rng.choice([4, 5, 8, 11])
    none = rng.random() < .25
    d = none_channels(rng, min(n, 6)) if none else channels(rng, n, rng.choice([10, 16, 30]))
    d["wmode"] = "array"
    n = len(d["lam"])
    fill(rng, d)
    d.pop("wnone", None); d["l0"] = []; d["wunit"] = 1.0
    d["mode"] = rng.choice(["variance", "variance", "uniform"])
    # no weight: a noise that is infinite or not given
    d["w"] = [v if v not in (0, NAN) else (v if rng.random() < .5 else 1) for v in d["w"]]
    if d["mode"] == "uniform": d["w"] = [1] * n
    if len(used(d)) < 4: return None
    if all(d["q"][j] == 0 and d["u"][j] == 0 for j in used(d)): return None
    d["sig"] = [] if d["mode"] == "variance" else [rng.randint(1, 5) for _ in range(n)]
    d["cols"] = rng.choice([5, 7]) if none else rng.choice([6, 8])
    d["nosi"] = int(d["cols"] > 6 and rng.random() < .2)
    d["ikind"] = "one" if d["cols"] < 7 or d["nosi"] else rng.choice(["const", "lam"])
    d["i0"] = rng.randint(20, 400) if d["ikind"] == "const" else rng.randint(1, 12)
    if d["mode"] == "uniform" and rng.random() < .3: pass
    d["ord"] = rng.choice([2, 2, 1]) if d["ikind"] == "lam" else rng.choice([0, 1, 2])
    d["u0"] = rng.choice([.02, .3, 2., 5.]); d["asym"] = rng.choice([0, 0, 2, -3])
    R = max(d["lam"]) - min(d["lam"])
    lobe = 3.46 / (R * math.pi / 360.0) / d["g"]
    d["step"] = max(1, min(int(lobe / rng.choice([3, 5])), d["top"] // 7))
    m = d["top"] // d["step"]; d["half"] = rng.choice([m, rng.randint(3, m)])
    d["fit"] = int(rng.random() < .15); d["cli"] = int(rng.random() < .35); d["verb"] = int(rng.random() < .2)
    d["rtol"] = 120 if not none else 350
    d["op"] = "run"
    if d["ikind"] == "lam": d["rtol"] += 400
    return d
