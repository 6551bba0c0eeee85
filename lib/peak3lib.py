"""Peak fitting of lattice FDF cubes."""
import numpy as np
from measurelib import put, U, math
from cube3dlib import *
from cubelib import header, mkax
import RMtools_3D.RMpeakfit_3D as PK

# saved product -> name in the event
NAMES = dict(dFDFcorMAD="mad", phiPeakPIfit_rm2="phi", dPhiPeakPIfit_rm2="dphi2", ampPeakPIfit="amp", ampPeakPIfitEff="eff2", dAmpPeakPIfit="noise",
             snrPIfit="snr", indxPeakPIfit="idx", peakFDFimagFit="im", peakFDFrealFit="re", polAngleFit_deg="pa", dPolAngleFit_deg="dpa2",
             polAngle0Fit_deg="pa0", dPolAngle0Fit_deg="ratio2", Ifreq0="ifreq0", dFDFth="th", lam0Sq_m2="l0", freq0_Hz="f0", fwhmRMSF="fwhm",
             min_freq="fmin", max_freq="fmax", N_channels="nchan", median_channel_width="mcw", fracPol="frac")
PEAK = "dFDFcorMAD phiPeakPIfit_rm2 dPhiPeakPIfit_rm2 ampPeakPIfitEff dAmpPeakPIfit snrPIfit polAngle0Fit_deg dPolAngle0Fit_deg".split()
DEFAULT = ("dFDFcorMAD phiPeakPIfit_rm2 dPhiPeakPIfit_rm2 ampPeakPIfitEff dAmpPeakPIfit snrPIfit peakFDFimagFit peakFDFrealFit Ifreq0 lam0Sq_m2 "
           "polAngle0Fit_deg dPolAngle0Fit_deg").split()


def scaled(m, name, u, s, l0, full, fu):
    """value of product `name` in logged units, m: product -> array"""
    g = lambda k: np.asarray(m[k], "float64")
    with np.errstate(all="ignore"):
        if full:
            A, N = g("ampPeakPIfit"), g("dAmpPeakPIfit")
            if name == "dPhiPeakPIfit_rm2": return g(name) * 2 * A / s / u * 1000
            if name == "ampPeakPIfitEff": return (A ** 2 - g(name) ** 2) / N ** 2 * 10000
            if name == "snrPIfit": return g(name) * N / A * 1000
            if name == "dPolAngleFit_deg": return g(name) * np.pi / 180 * 2 * A / s * 1000
            if name == "dPolAngle0Fit_deg": return (g(name) / g("dPolAngleFit_deg")) ** 2 * 10000
            if name == "fracPol": return A / g(name) * 1000
        v = g(name)
        if name in ("dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "peakFDFimagFit", "peakFDFrealFit", "dFDFth"): return v / s * 1000
        if name in ("phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "fwhmRMSF"): return v / u * 1000
        if name in ("freq0_Hz", "min_freq", "max_freq", "median_channel_width"): return v / fu
        if name == "lam0Sq_m2": return v / l0 * 100000
        if name == "N_channels": return v
        return v * 1000


def run_peak3(inp):
    u, s = inp["u"], 2.0 ** inp["pow"]
    l0 = math.radians(inp["d"]) / u
    UL_ = l0 / inp["l0"]
    lam = np.array(inp["lam"], dtype=float) * UL_
    nx, ny, n = inp["nx"], inp["ny"], len(inp["phi"])
    with Scratch("pk"):
        d, pre = paths(inp)
        pre += inp["prefix"]
        fdf = np.array([[complex(*v) for v in p["fdf"]] if p["fdf"] else [complex(np.nan, np.nan)] * n for p in inp["pix"]]).T.reshape(n, ny, nx) * s
        roles = ["p", "y", "x"]
        ax = inp["ax"]
        shape = [b["n"] for b in ax][::-1]
        def lay(a):
            return np.transpose(a, [roles.index(b["t"]) for b in ax[::-1] if b["t"] in "pyx"]).reshape(shape[:] if a.shape[0] == n else [1 if b["t"] == "p" else b["n"] for b in ax][::-1])
        h = header(ax)
        no = [b["t"] for b in ax].index("p") + 1
        h["CRPIX%d" % no] = inp["rp"] / 10.0; h["CDELT%d" % no] = (inp["phi"][1] - inp["phi"][0]) * u
        h["CRVAL%d" % no] = inp["phi"][0] * u + (inp["rp"] - 10) / 10.0 * h["CDELT%d" % no]
        h["LAMSQ0"] = l0
        names = ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"] if not inp["clean"] else ["FDF_clean_real", "FDF_clean_im", "FDF_clean_tot"]
        if inp["bare"]: del h["CTYPE%d" % len(ax)]
        for v, nm in zip((fdf.real, fdf.imag, np.abs(fdf)), names):
            pf.writeto(pre + nm + ".fits", lay(v).astype("float32"), h)
        w = np.array([p["f10"] / 10.0 * u for p in inp["pix"]]).reshape(1, ny, nx)
        aw = [dict(a, n=1, t="o") if a["t"] == "p" else a for a in ax]
        wv = lay(np.repeat(w, 1, axis=0)) if n != 1 else w
        pf.writeto(pre + "RMSF_FWHM.fits", wv.astype("float32"), header(aw))
        fr = C / np.sqrt(lam)
        np.savetxt("freq.dat", fr, fmt="%.17g")
        argv = ["p", pre + names[inp["which"]] + ".fits", "freq.dat", inp["oname"]]
        if inp["mode"]: argv.append(inp["mode"])
        if inp["hasi"]:
            c = np.array(inp["ipix"], dtype=float).T.reshape(len(lam), ny, nx)
            ia = [dict(a, n=len(lam), t="f", v=7000, p=10, s=10) if a["t"] == "p" else a for a in ax]
            r2 = ["f", "y", "x"]
            t = np.transpose(c, [r2.index(b["t"]) for b in ia[::-1] if b["t"] in "fyx"])
            pf.writeto("i.fits", t.reshape([b["n"] for b in ia][::-1]), header(ia))
            argv += ["-i", "i.fits"]
        dth = None
        if inp["noise"]:
            np.savetxt("noise.dat", np.array([np.nan if x == NAN else x * s for x in inp["noise"]]), fmt="%.17g")
            argv += ["-n", "noise.dat", "-w", inp["weight"]]
            dth = inp["noise10"] / 10.0 * s
        cli(PK.main, argv)
        import glob
        base = inp["oname"]
        files = glob.glob(glob.escape(base) + "*.fits")
        got = {}
        for f in files:
            k = f[len(base):-5]
            got[k] = (pf.getdata(f), axes_of(pf.getheader(f)))
        full = inp["mode"] == "-a"
        raw = {k: v[0] for k, v in got.items()}
        maps = {}
        for k in got:
            v = scaled(raw, k, u, s, l0, full, inp["fu"])
            maps[NAMES.get(k, k)] = dict(ax=got[k][1], d=[fx(x, 1) for x in np.ravel(v)])
        # the 1-D measurement of each pixel
        no = [b["t"] for b in ax].index("p")
        phi = U.fits_make_lin_axis(h, axis=no) if "NAXIS%d" % (no + 1) in h else None
        if phi is None:
            h["NAXIS"] = len(ax)
            for i, a in enumerate(ax, 1): h["NAXIS%d" % i] = a["n"]
            phi = U.fits_make_lin_axis(h, axis=no)
        rows = []
        for p in range(nx * ny):
            if not inp["pix"][p]["fdf"]:
                rows.append(None); continue
            z = fdf.astype("complex64")[:, p // nx, p % nx]
            rows.append(U.measure_FDF_parms(z, phi, np.float32(inp["pix"][p]["f10"] / 10.0 * u), dFDF=dth, lamSqArr_m2=lam, lam0Sq=l0, snrDoBiasCorrect=5.0))
        solo = {}
        keys = [k for k in NAMES if any(r and k in r for r in rows)]
        if any(rows):
            m = {k: np.array([r[k] if r else np.nan for r in rows], dtype="float32" if full else "float64") for k in keys}
            for k in keys: solo[NAMES[k]] = [fx(x, 1) for x in scaled(m, k, u, s, l0, full, inp["fu"])]
        return {"maps": maps, "solo": solo}


SQ = [[3, 4], [1, 2, 2], [2, 3, 6], [1, 1, 1, 1], [1, 1, 3, 5], [2, 4, 5, 6], [1, 1, 1, 2, 3], [1, 1, 1, 1, 1, 2, 4], [2, 2, 2, 2, 3], [1, 1, 1, 1, 2, 2, 2], [5, 5, 5, 5]]


def mk_peak3(rng, order=None, sizes=None):
    order = order or rng.choice([[t if t != "f" else "p" for t in o] for k in FREQORD for o in FREQORD[k]])
    nx, ny = (sizes["x"], sizes["y"]) if sizes else (rng.randint(1, 5), rng.randint(1, 5))
    n = rng.choice([3, 5, 7, 9, 15, 21])
    step = rng.choice([1, 1, 2, 3])
    off = rng.choice([0, 0, 4, -6])
    pix = []
    for p in range(nx * ny):
        if rng.random() < .12:
            pix.append(dict(fdf=[], amp=[], f10=24 * step)); continue
        top = rng.choice([20, 100])
        amp = [rng.randint(0, max(1, top // 6)) for _ in range(n)]
        i = rng.choice([0, 1, n - 2, n - 1, rng.randrange(n)])
        for k in range(n): amp[k] = max(amp[k], int(top * math.exp(-((k - i) / rng.choice([1., 1.5, 2.5])) ** 2)))
        if max(amp[1:-1]) == 0: amp[1] = 5
        f10 = rng.choice([7, 13, 24, 35, 57]) * step
        if f10 % (10 * step) == 0: f10 += 3
        pix.append(dict(fdf=[put(rng, a) for a in amp], amp=amp, f10=f10))
    nl = rng.choice([3, 4, 5, 7])
    lam = sorted(rng.sample(range(1, 12), nl), reverse=rng.random() < .5)
    l0 = rng.choice([x for x in (3, 5, 8) if lam and min(lam) <= x <= max(lam)] or [lam[0]])
    noise, weight, noise10 = [], "uniform", 0
    hasi = rng.random() < .4
    if not hasi and rng.random() < .5:
        weight = rng.choice(["uniform", "variance"])
        m = nl if rng.random() < .6 else rng.randint(2, nl)
        c = [q for q in SQ if len(q) == m]
        if c:
            q = list(rng.choice(c)); rng.shuffle(q)
            nm = math.isqrt(sum(x * x for x in q)); k = rng.choice([20, 50, 100])
            noise = [x * m * k / 10.0 / 1.0 for x in q] if weight == "uniform" else [nm * k / 10.0 / x for x in q]
            for j in range(nl - m): noise.insert(rng.randint(0, len(noise)), NAN)          # channels without a noise estimate
            noise10 = nm * k if weight == "uniform" else k
    base = mk_image(rng, dict(x=nx, y=ny, p=n, s=1), "p", order, [])["ax"]
    mode = rng.choice(["-a", "-a", "-a", "", "-p"])
    prods = list(NAMES) if mode == "-a" else PEAK if mode == "-p" else DEFAULT
    inp = dict(op="peak3", pix=pix, nx=nx, ny=ny, phi=[(k - n // 2) * step + off for k in range(n)], ax=base, rp=rng.choice([10, 10, 10 * n, -20]),
               bare=int(base[-1]["t"] == "p" and rng.random() < .4), lam=lam, l0=l0, d=rng.choice([1, 7, 30]), u=rng.choice([.003, .25, 1.0, 3.7, 40.0]), pow=rng.choice([-24, -10, -3, 0, 2, 12]), mode=mode,
               products=sorted(NAMES[k] for k in prods), full=mode == "-a",
               hasi=hasi, noise=noise, weight=weight, noise10=noise10, clean=rng.random() < .3, which=rng.randrange(3),
               dir=rng.choice(DIRS), prefix=rng.choice(["", "", "p_", "field_total_", "im_real_", "RMSF_FWHM_"]), oname=rng.choice(["pk_", "sub/pk_", "o.tot_real_"]))
    inp["ipix"] = [[rng.choice([1, 2, 3, 5, 9]) for _ in range(nl)] for _ in range(nx * ny)]
    UL_ = math.radians(inp["d"]) / inp["u"] / l0
    fr = [C / math.sqrt(x * UL_) for x in lam]
    inp["fu"] = max(fr) / 1.5e6                       # logged frequency unit
    inp["fr"] = [fx(f / inp["fu"], 1) for f in fr]
    inp["f0"] = fx(C / math.sqrt(l0 * UL_) / inp["fu"], 1)
    return inp
