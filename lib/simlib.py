"""Simulated spectra, ASCII data sets and cubes of catalogued sources."""
import contextlib, glob, io, math, os, re, shutil, sys, tempfile, warnings
import numpy as np
import astropy.io.fits as pf
from astropy.wcs import WCS
from vlib import fx, fxa, NAN
import RMutils.util_misc as M
import RMtools_1D.mk_test_ascii_data as T1
import RMtools_3D.mk_test_cube_data as T3
from RMtools_1D.do_QUfit_1D_mnest import load_model
from cubelib import cli

RMS = [0.0, 0.5, 2e-3]
FLUX = [1.0, 10.0, 5e-3, 2e4]
cu = lambda z: [[fx(a, 1e5), fx(b, 1e5)] for a, b in zip(np.real(z), np.imag(z))]


def pars(cs):
    return ([c["p"] / 1000.0 for c in cs], [c["psi"] / 1000.0 for c in cs], [float(c["rm"]) for c in cs], [float(c["sig"]) for c in cs])


def model_of(kind, cs, f):
    """the same source through the models of the QU fitting tool, where there is one"""
    p, psi, rm, sig = pars(cs)
    lam = (299792458.0 / f) ** 2
    if kind == "burn" and len(cs) == 1:
        return load_model(2).model(dict(fracPol=p[0], psi0_deg=psi[0], RM_radm2=rm[0], sigmaRM_radm2=sig[0]), lam)
    if kind == "burn" and len(cs) == 2:
        return load_model(4).model(dict(fracPol1=p[0], psi01_deg=psi[0], RM1_radm2=rm[0], sigmaRM1_radm2=sig[0], fracPol2=p[1], psi02_deg=psi[1], RM2_radm2=rm[1], sigmaRM2_radm2=sig[1]), lam)
    if kind == "stack" and len(cs) == 1:
        return load_model(5).model(dict(fracPol=p[0], psi0_deg=psi[0], RM_radm2=0.0, deltaRM_radm2=rm[0]), lam)
    return None


def run_spec(inp):
    f = np.array(inp["f"], float) * 1e6
    a = list(pars(inp["cs"]))
    if inp["form"] == "array": a = [np.array(x) for x in a]
    flux = inp["flux"]; bef = [np.array(x) for x in a] + [f.copy()]
    none = inp["kind"] == "burn" and all(c["sig"] == 0 for c in inp["cs"]) and inp["form"] == "list"
    f0 = {} if inp["f0"] == inp["f"][0] else dict(freq0_Hz=inp["f0"] * 1e6)
    si = inp["si"] / 10.0
    if inp["kind"] == "burn":
        p, q, u = M.create_pqu_spectra_burn(f, *(a[:3] if none else a))
        I, Q, U = M.create_IQU_spectra_burn(f, flux, si, *(a[:3] if none else a), **f0)
    else:
        p, q, u = M.create_pqu_spectra_diff(f, *a[:3])
        I, Q, U = M.create_IQU_spectra_diff(f, flux, si, *a[:3], **f0)
    res = []
    if inp["kind"] == "burn" and len(inp["cs"]) == 1 and inp["cs"][0]["sig"] == 0:
        t = [x[0] for x in a[:3]]
        p2, q2, u2 = M.create_pqu_spectra_RMthin(f, *t)
        I2, Q2, U2 = M.create_IQU_spectra_RMthin(f, flux, si, *t, **f0)
        ok2 = np.allclose([q2, u2, p2], [q, u, p], atol=1e-9) and np.allclose([I2, Q2, U2], [I, Q, U], atol=1e-9 * flux)
        if not ok2: q, u, I, Q, U = q2, u2, I2, Q2, U2
        # residual of the spectra shifted by a constant: the constant, with the sign of data minus model
        pr, qr, ur = M.create_pqu_resid_RMthin(q * 2 - .3, u * 2 + .2, f, *t)
        res = [cu(qr + 1j * ur)]
        if not np.allclose(pr, np.hypot(qr, ur)): res.append(cu(np.full(len(f), np.nan)))
    fit = model_of(inp["kind"], inp["cs"], f)
    ok = all(np.shape(x) == f.shape for x in (p, q, u, I, Q, U))
    return dict(exc="", shape=bool(ok), qu=cu(q + 1j * u), p=fxa(p, 1e5), i=fxa(I / flux, 1e5), fqu=cu((Q + 1j * U) / flux), res=res, fit=[] if fit is None else cu(fit),
                untouched=bool(all(np.array_equal(np.array(x), b) for x, b in zip(a + [f], bef))))


def catalogue(path, inp, w=lambda s: s["flux"]):
    out = ["# a catalogue", ""]
    for i, s in enumerate(inp["srcs"]):
        k = {"burn": 1, "stack": 2, "other": 3}[s["kind"]]
        n = [k, s.get("lon", 1.0), s.get("lat", 2.0), 3.5, 4.5, 5.5, w(s), s["si"] / 10.0]
        for c in s["cs"]: n += [c["p"] / 1000.0, c["psi"] / 1000.0, c["rm"]] + ([c["sig"]] if s["kind"] == "burn" else [])
        sep = inp["sep"]
        out.append(sep.join(repr(float(v)) if j else str(k) for j, v in enumerate(n)) + ("   # a comment, with commas" if i % 2 else ""))
        if i % 3 == 1: out += ["", "#1, 2, 3"]
    with open(path, "w") as fh: fh.write("\n".join(out) + "\n")


def template(inp):
    return None if not inp["tx"] else np.array([np.array(inp["tx"]) * 1e6, np.array(inp["ty"]) * 3e-5])


def run_cat(inp):
    d = tempfile.mkdtemp(prefix="sim")
    try:
        cat = d + "/cat.csv"; catalogue(cat, inp)
        f = np.array(inp["f"], float)
        rms = RMS[inp["noise"]]
        np.random.seed(inp["seed"])
        flags = ",".join("%r,%r" % (a * 1e6, b * 1e6) for a, b in inp["flags"])
        out = d + "/" + inp["dir"]
        count = NAN
        t = template(inp)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if inp["how"] == "cli":
                argv = ["prog", cat, out, "-f", str(inp["f"][0]), str(inp["f"][-1]), "-c", str(len(f)), "-n", repr(rms)]
                if inp["f0"] != inp["f"][0]: argv += ["-f0", str(inp["f0"])]
                if t is not None: np.savetxt(d + "/noise.txt", t.T); argv += ["-t", d + "/noise.txt"]
                if flags: argv += ["-l", flags]
                cli(T1.main, argv)
            else:
                count = T1.create_IQU_ascii_data(out, cat, f[0] * 1e6, f[-1] * 1e6, len(f), rms, t, [(a * 1e6, b * 1e6) for a, b in inp["flags"]], None if inp["f0"] == inp["f"][0] else inp["f0"] * 1e6)
        files = sorted(int(re.search(r"Source(\d+)\.dat$", p).group(1)) for p in glob.glob(out.rstrip("/") + "/*"))
        rows = []
        for n in files:
            s = inp["srcs"][n - 1]; fl = s["flux"]
            m = np.loadtxt(out.rstrip("/") + "/Source%d.dat" % n)
            # noiseless spectrum of the same tool, for the scatter of a noisy one
            base = np.zeros((len(f), 3))
            if rms:
                fn = M.create_IQU_spectra_burn if s["kind"] == "burn" else M.create_IQU_spectra_diff
                a = [np.array(x) for x in pars(s["cs"])]
                base = np.array(fn(f * 1e6, fl, s["si"] / 10.0, *(a if s["kind"] == "burn" else a[:3]), freq0_Hz=inp["f0"] * 1e6)).T
            r = []
            for j in range(len(m)):
                v = m[j]; k = rms if rms else 1.0
                g = lambda x, sc: fx(x * sc, 1) if np.isfinite(x) else NAN
                r.append(dict(f=g(v[0], 1e-6), i=g(v[1] / fl, 1e5), q=g(v[2] / fl, 1e5), u=g(v[3] / fl, 1e5), di=g(v[4] / k, 1000), dq=g(v[5] / k, 1000), du=g(v[6] / k, 1000),
                              ni=g((v[1] - base[j, 0]) / k, 1000), nq=g((v[2] - base[j, 1]) / k, 1000), nu=g((v[3] - base[j, 2]) / k, 1000)))
            rows.append(r)
        return dict(exc="", count=int(count), files=files, rows=rows)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PIX = 0.5 / 3600


def place(inp):
    """sky position of each source from its pixel position (1/100 pixel, from 0)"""
    for s in inp["srcs"]:
        s["lon"] = inp["lon"] / 10.0 + (s["x"] / 100.0 - (inp["nx"] - 1) / 2.0) * PIX
        s["lat"] = 0.0 + (s["y"] / 100.0 - (inp["ny"] - 1) / 2.0) * PIX


def make_cube(inp, d, rms):
    cat = d + "/cat.csv"; unit = inp["unit"]
    catalogue(cat, inp, lambda s: s["w"] / 10.0 * unit)
    f = np.array(inp["f"], float) * 1e6
    np.random.seed(inp["seed"])
    old = T3.freq0_Hz
    T3.freq0_Hz = inp["f0"] * 1e6
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            n = T3.create_IQU_cube_data(d + "/out", cat, f[0], f[-1], len(f), rms, inp["w1"] / 100 * PIX, inp["w2"] / 100 * PIX, inp["pa"] / 2.0, PIX, inp["lon"] / 10.0, 0.0, inp["nx"], inp["ny"], inp["sys"],
                                        template(inp), [(a * 1e6, b * 1e6) for a, b in inp["flags"]])
    finally: T3.freq0_Hz = old
    return n, [pf.open(d + "/out/Stokes%s.fits" % s)[0] for s in "IQU"], np.loadtxt(d + "/out/freqs_Hz.dat")


def run_cube(inp):
    d = tempfile.mkdtemp(prefix="sim")
    try:
        n, hd, fr = make_cube(inp, d, 0.0)
        h = hd[0].header; u = inp["unit"]
        w = WCS(h).celestial if inp["sys"] == "GAL" else None
        pix = []
        for s in inp["srcs"]:
            # linear in either system: the reference latitude is zero
            x = (s["lon"] - h["CRVAL1"]) / h["CDELT1"] + h["CRPIX1"] - 1; y = (s["lat"] - h["CRVAL2"]) / h["CDELT2"] + h["CRPIX2"] - 1
            pix.append([fx(x, 100), fx(y, 100)])
        v = [[[fx(float(c.data[0, j, y, x]) / u, 1e5) for c in hd] for j in range(len(inp["f"]))] for x, y in inp["at"]]
        return dict(exc="", count=int(n), freqs=fxa(fr / 1e6, 1), shape=list(hd[0].data.shape), stokes=[int(c.header["CRVAL4"]) for c in hd],
                    ax=dict(f1=fx(h["CRVAL3"] / 1e6, 1), df=fx(h["CDELT3"] / 1e6, 1), nf=int(h["CRPIX3"]), bmaj=fx(h["BMAJ"] / PIX, 100), bmin=fx(h["BMIN"] / PIX, 100), pa=fx(h["BPA"], 2)), pix=pix, v=v)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_noise(inp):
    d = tempfile.mkdtemp(prefix="sim")
    try:
        n, hd, fr = make_cube(inp, d, RMS[inp["rms"]])
        x = [np.array(c.data[0], float) / RMS[inp["rms"]] for c in hd]
        same = sum(int(np.array_equal(x[a], x[b])) for a, b in ((0, 1), (1, 2), (0, 2)))
        return dict(exc="", sd=[fxa(a.std(axis=(1, 2)), 1000) for a in x], mean=[fxa(a.mean(axis=(1, 2)), 1000) for a in x], same=same)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(inp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {"spec": run_spec, "cat": run_cat, "cube": run_cube, "noise": run_noise}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
def mk_part(rng):
    return dict(p=rng.choice([0, rng.randint(1, 300), rng.randint(1, 300)]), psi=rng.choice([rng.randint(-180, 180) * 1000, rng.randint(-180000, 180000)]), rm=rng.choice([0, rng.randint(-60, 60), rng.randint(-250, 250)]),
                sig=rng.choice([0, 0, rng.randint(1, 9), rng.randint(5, 60)]))


def mk_freqs(rng, n=None):
    n = n or rng.choice([2, 3, 6, 12])
    step = rng.choice([2, 7, 40, 100]); a = rng.randint(300, 1500)
    return [a + i * step for i in range(n)]


def mk_src(rng, base=None):
    k = rng.choice(["burn", "stack"])
    cs = [mk_part(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if base: k, cs = base["kind"], [dict(c) for c in base["cs"]]
    if k == "stack":
        for c in cs: c["sig"] = 0
    return dict(kind=k, cs=cs, si=base["si"] if base else rng.choice([0, -7, rng.randint(-20, 20)]), flux=rng.choice(FLUX))


def spec_case(rng, base=None):
    s = mk_src(rng, base)
    f = mk_freqs(rng)
    if rng.random() < .3: f = f[::-1]
    if rng.random() < .2: rng.shuffle(f)
    return dict(op="spec", f=f, f0=f[0] if rng.random() < .5 else rng.randint(300, 2000), form=rng.choice(["list", "array"]), **s)


def tmpl(rng, f):
    if rng.random() < .5: return [], []
    n = rng.choice([2, 3, 5])
    lo, hi = f[0] - rng.randint(-60, 200), f[-1] + rng.randint(-60, 200)
    if hi - lo < 40: lo, hi = f[0] - 100, f[-1] + 100
    tx = sorted(rng.sample(range(lo, hi), n))
    ty = [rng.choice([rng.randint(50, 90), rng.randint(50, 90), rng.randint(100, 400)]) for _ in tx]
    # extrapolation must stay positive
    for i, j in ((0, 1), (n - 1, n - 2)):
        g = (ty[i] - ty[j]) / (tx[i] - tx[j])
        for x in (f[0], f[-1]):
            if ty[i] + g * (x - tx[i]) < 10: ty[i] = ty[j]
    return tx, ty


def flags(rng, f):
    r = []
    if rng.random() < .5:
        for _ in range(rng.choice([1, 2])):
            a, b = sorted((rng.choice([f[0], f[-1], rng.choice(f) + rng.choice([1, -1])]), rng.choice([f[0], f[-1], rng.choice(f) + rng.choice([1, -1])])))
            if b - a < (f[-1] - f[0]) / 2: r.append([a, b])
    return r


def cat_case(rng, base=None):
    noise = rng.choice([0, 0, 0, 1, 2])
    f = mk_freqs(rng, 60 if noise else None)
    srcs = [mk_src(rng, b) for b in (base or [])] or [mk_src(rng) for _ in range(rng.choice([1, 2, 4]))]
    if noise: srcs = srcs[:2]
    if rng.random() < .3: srcs.insert(rng.randrange(len(srcs) + 1), dict(mk_src(rng), kind="other"))
    tx, ty = tmpl(rng, f)
    return dict(op="cat", how=rng.choice(["cli", "call"]), f=f, f0=f[0] if rng.random() < .5 else rng.randint(300, 2000), noise=noise, tx=tx, ty=ty, flags=flags(rng, f), srcs=srcs, seed=rng.randrange(2 ** 31), sep=rng.choice([",", ", ", " ,  ", ",\t"]), dir=rng.choice(["out", "out/", "a/b/out"]))


def cube_case(rng, op="cube"):
    nx, ny = rng.randint(4, 12), rng.randint(4, 12)
    if op == "noise": nx = ny = 24
    f = mk_freqs(rng, rng.choice([2, 3, 4]))
    srcs = [dict(mk_src(rng), x=rng.randint(-100, 100 * nx), y=rng.randint(-100, 100 * ny), w=rng.randint(5, 30)) for _ in range(rng.choice([1, 1, 2, 3]))]
    if op == "noise":
        for s in srcs: s["w"] = 0
    tx, ty = tmpl(rng, f)
    w = sorted((rng.randint(150, 400), rng.randint(150, 700)))
    inp = dict(op=op, nx=nx, ny=ny, f=f, f0=f[0] if rng.random() < .5 else rng.randint(300, 2000), srcs=srcs, tx=tx, ty=ty, flags=flags(rng, f) if op == "cube" else [], w1=w[0], w2=w[1], pa=rng.choice([0, 40, 180, rng.randrange(720)]),
               lon=rng.choice([900, rng.randint(100, 3500)]), sys=rng.choice(["GAL", "GAL", "EQU"]), unit=rng.choice(FLUX), rms=rng.choice([1, 2]), seed=rng.randrange(2 ** 31), sep=", ")
    place(inp)
    inp["at"] = [[rng.randrange(nx), rng.randrange(ny)] for _ in range(4)]
    return inp
