"""Q/U prediction from clean components: the function, the command-line tool, and the chain rmsynth1d -> rmclean1d -> prediction."""
import io, json, math, os, contextlib, warnings
import numpy as np
from vlib import fx, fxa, cxa, NAN
from cubelib import Scratch, cli
from synthlib import UL, unit_phi
import matplotlib
matplotlib.use("Agg")
import RMtools_1D.clean_model as CM
import RMtools_1D.do_RMsynth_1D as S1
import RMtools_1D.do_RMclean_1D as C1
from RMutils.util_RM import do_rmsynth_planes

C = 299792458.0
freqs = lambda lam: C / np.sqrt(np.array(lam, dtype=float) * UL)


def prep(inp):
    uphi = unit_phi(inp["g"], inp["den"])
    cs = inp["comps"]
    phi = np.array([c["phi"] for c in cs], float) * uphi
    cc = np.array([c["re"] + 1j * c["im"] for c in cs]) / 100.0 * inp["unit"]
    return freqs(inp["lam"]), phi, cc, inp["num"] / inp["den"] * UL, None if inp["fn"] == "none" else [v / 1e5 for v in inp["p"]]


def ref_f(inp):
    r = inp["ref"] or inp["num"] / inp["den"]
    return C / math.sqrt(r * UL)


def pack(inp, f, fo, i, q, u, un=True):
    ok = all(np.shape(x) == f.shape for x in (fo, i, q, u))
    return dict(exc="", shape=bool(ok), q=fxa(np.asarray(q) / inp["unit"], 1e5), u=fxa(np.asarray(u) / inp["unit"], 1e5), i=fxa(np.asarray(i) / inp.get("iunit", 1), 1e5),
                freq=bool(ok and np.allclose(fo, f, rtol=1e-9)), untouched=bool(un))


def run_predict(inp):
    f, phi, cc, l0, p = prep(inp)
    if p: p = p[:5] + [p[5] * inp["iunit"]] if inp["fn"] == "log" else [v * inp["iunit"] for v in p]
    args = [f, phi, cc]
    bef = [a.copy() for a in args]
    kw = {}
    if inp["fn"] == "linear": kw["fit_function"] = "linear"
    if inp["ref"]: kw["reference_frequency_Hz"] = ref_f(inp)
    qu, im = CM.calculate_QU_model(f, phi, cc, l0, p, **kw) if p else CM.calculate_QU_model(f, phi, cc, l0, **kw)
    return pack(inp, f, f, im, qu.real, qu.imag, all(np.array_equal(a, b) for a, b in zip(args, bef)))


def run_file(inp):
    f, phi, cc, l0, p = prep(inp)
    if p: p = p[:5] + [p[5] * inp["iunit"]] if inp["fn"] == "log" else [v * inp["iunit"] for v in p]
    else: p = [0, 0, 0, 0, 0, 1]
    with Scratch("predict"):
        n = len(f)
        cols = {5: [f] + [np.ones(n)] * 4, 7: [f] + [np.ones(n)] * 6}[inp["cols"]]
        np.savetxt("spec.dat", np.array(cols).T, fmt="%.17g")
        np.savetxt("src_FDFmodel.dat", np.array([phi, cc.real, cc.imag]).T, fmt="%.17g")
        d = dict(polyCoeffs=",".join(repr(float(v)) for v in p), lam0Sq_m2=l0, Ifreq0=p[5])
        if inp["fn"] == "linear" or inp["ref"] or inp["new"]: d.update(fit_function="log" if inp["fn"] == "none" else inp["fn"], freq0_Hz=ref_f(inp))
        json.dump(d, open("src_RMsynth.json", "w"))
        with contextlib.redirect_stdout(io.StringIO()): cli(CM.main, ["x", "spec.dat", "src_RMsynth.json", "src_FDFmodel.dat", "out.dat"])
        fo, i, q, u = np.atleast_2d(np.loadtxt("out.dat")).T
        return pack(inp, f, fo, i, q, u)


def run_round(inp):
    f, phi, cc, l0, p = prep(inp)
    qu, im = CM.calculate_QU_model(f, phi, cc, l0)
    depths = np.array(inp["depths"], float) * unit_phi(inp["g"], inp["den"])
    r = do_rmsynth_planes(qu.real.copy(), qu.imag.copy(), (C / f) ** 2, depths, log=lambda *a, **k: None)
    fd = np.squeeze(np.asarray(r.FDFcube))
    return dict(exc="", shape=fd.shape == depths.shape, fdf=cxa(fd / inp["unit"], 1e5), lam0=fx(r.lam0Sq_m2 / UL * inp["den"], 100))


def run_chain(inp):
    f = freqs(inp["lam"])
    lam = np.array(inp["lam"], float)
    uphi = unit_phi(inp["g"], inp["den"])
    x = np.sqrt(inp["ref"] / lam)
    p = np.array(inp["p"]) / 1e5
    I = p[5] * 10 ** np.polyval(np.append(p[:5], 0), np.log10(x)) if inp["fn"] == "log" else np.polyval(p, x)
    if inp["fn"] == "none": I = np.ones_like(x)
    I = I * inp["unit"]
    P = sum((c["re"] + 1j * c["im"]) / 1000.0 * np.exp(2j * c["phi"] * uphi * lam * UL) for c in inp["comps"]) * I
    e = np.abs(I).max() * 1e-4 * np.ones_like(I)
    for j in inp["bad"]: P[j] = np.nan
    with Scratch("chain"), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        cols = [f, P.real, P.imag, e, e] if inp["fn"] == "none" else [f, I, P.real, P.imag, e, e, e]
        np.savetxt("src.dat", np.array(cols).T, fmt="%.17g")
        cli(S1.main, ["rmsynth1d", "src.dat", "-S", "-o", inp["ord"], "-f", "log" if inp["fn"] == "none" else inp["fn"], "-l", repr(inp["half"] * inp["step"] * uphi), "-d", repr(inp["step"] * uphi), "-w", "uniform"])
        cli(C1.main, ["rmclean1d", "src.dat", "-c", repr(float(np.abs(P[np.isfinite(P)]).max() * 2e-3)), "-n", 3000, "-g", 0.2, "-S"])
        cli(CM.main, ["x", "src.dat", "src_RMsynth.json", "src_FDFmodel.dat", "QUmodel.dat"])
        fo, i, q, u = np.loadtxt("QUmodel.dat").T
        return dict(pack(dict(inp, iunit=inp["unit"]) if inp["fn"] != "none" else inp, f, fo, i, q, u))


def execute(inp):
    return {"predict": run_predict, "file": run_file, "round": run_round, "chain": run_chain}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
UNITS = [1.0, 1.0, 2.0 ** -20, 2.0 ** 9, 2.0 ** -40, 3e5]


def args_of(fn, lam, r):
    x = [math.sqrt(r / v) for v in lam]
    return [int(round(1e5 * (v if fn == "linear" else math.log10(v)))) for v in x]


def model(rng, fn):
    r = lambda a, b: rng.choice([0, rng.randint(a, b)])
    if fn == "linear": return [0, 0, r(-9000, 9000), r(-20000, 20000), r(-60000, 60000), rng.randint(110000, 400000)]
    return [0, r(-20000, 20000), r(-40000, 40000), r(-60000, 60000), rng.randint(-120000, 90000), rng.randint(20000, 900000)]


def predict_case(rng, op=None):
    n = rng.choice([1, 2, 5, 9, 16])
    lam = rng.sample(range(40, 140), n)
    if rng.random() < .7: lam.sort(reverse=rng.random() < .6)
    den = rng.choice([1, 2, 3, 7, 30])
    num = int(den * rng.uniform(min(lam) - .5, max(lam) + .5)) if rng.random() < .8 else den * rng.choice([40, 60, 90])
    cs = [dict(phi=rng.choice([0, rng.randint(-9, 9), rng.randint(-60, 60)]), re=rng.randint(-90, 90), im=rng.randint(-90, 90)) for _ in range(rng.choice([1, 1, 2, 4, 8]))]
    fn = rng.choice(["none", "log", "log", "linear"])
    ref = rng.choice([0, 0, rng.choice([50, 80, 110])])
    d = dict(op=op or rng.choice(["predict", "predict", "file"]), g=rng.choice([1, 1, 2, 7]), lam=lam, num=num, den=den, comps=cs, fn=fn, ref=ref, p=[0] * 6 if fn == "none" else model(rng, fn), unit=rng.choice(UNITS),
             iunit=1.0 if fn == "none" else rng.choice(UNITS), cols=rng.choice([5, 7]), new=rng.random() < .6)
    if d["op"] == "file":                                                                    # a model file lists the whole depth grid
        while len(cs) < 3: cs.append(dict(phi=rng.randint(-60, 60), re=0, im=0))
        if n == 1: lam.append(lam[0] + 3); n = 2
    d["arg"] = args_of(fn, lam, ref or num / den) if fn != "none" else [0] * n
    return d


def round_case(c, rng):
    n = len(c["lam"])
    return dict(op="round", fn="none", p=[0] * 6, ref=0, depths=list(range(-(n // 2) + 1, n // 2 + 1)), unit=rng.choice(UNITS), **c)


def chain_case(rng):
    n = rng.choice([24, 40, 60])
    lo = rng.choice([40, 80])
    lam = list(range(lo, lo + 2 * n, 2))
    if rng.random() < .3: lam = sorted(rng.sample(range(lo, lo + 2 * n), n))
    if rng.random() < .7: lam = lam[::-1]
    g = 1
    R = (max(lam) - min(lam))
    # one unit of depth and one of lambda^2 make half a degree; a lobe is about 2*3.8 rad /(2 R)
    lobe = 3.8 / (R * math.pi / 360.0)            # in depth units (den = 1)
    step = max(1, int(lobe / rng.choice([4, 6, 9])))
    half = max(20, int(rng.choice([3, 6]) * lobe / step))
    k = rng.randint(-half // 2, half // 2)
    amp = rng.randint(60, 600); th = rng.uniform(0, 2 * math.pi)
    fn = rng.choice(["none", "log", "log", "linear", "linear"])
    ref = (lo + n)
    p = [0] * 6
    if fn == "log": p[4] = rng.randint(-130000, 90000); p[5] = rng.randint(20000, 900000)
    if fn == "log" and rng.random() < .3: p[3] = rng.randint(-60000, 60000)
    if fn == "linear": p[5] = rng.randint(110000, 400000); p[4] = rng.randint(-60000, 60000)
    bad = rng.sample(range(1, n - 1), rng.randint(1, 4)) if rng.random() < .4 else []
    return dict(op="chain", g=g, den=1, num=0, lam=lam, comps=[dict(phi=k * step, re=int(amp * math.cos(th)), im=int(amp * math.sin(th)))], fn=fn, ref=ref, p=p, arg=args_of(fn, lam, ref) if fn != "none" else [0] * n,
                step=step, half=half, ord=2, bad=bad, unit=rng.choice([1.0, 1.0, 1e-3, 2.0 ** 6]), pct=3)
