"""Cube tools (synthesis, RM-CLEAN, peak fitting) run on FITS files of known content."""
import contextlib, io, math, warnings
import numpy as np
from RMutils.util_RM import get_rmsf_planes
from vlib import fx, fxa, NAN
from synthlib import UL, unit_phi
from cubelib import (CARDS, Scratch, S3, axes_of, cli, from_layout, mk_image, mk_order, pf, read, write, FREQORD)
import os

C = 299792458.0


def spectra(img):
    """array [f, y, x] of an image, NaN where flagged"""
    ax = img["ax"]
    a = np.array([np.nan if v == NAN else float(v) for v in img["d"]]).reshape([b["n"] for b in ax][::-1])
    roles = [b["t"] for b in ax][::-1]
    for i in range(len(roles) - 1, -1, -1):
        if roles[i] not in "fxy":
            a = np.take(a, 0, axis=i); roles.pop(i)
    return np.moveaxis(a, roles.index("f"), 0)


def weff(inp):
    q, u = spectra(inp["q"]), spectra(inp["u"])
    live = np.any(~np.isnan(q + u), axis=(1, 2))
    return [0 if (w == NAN or not live[j]) else w for j, w in enumerate(inp["w"])]


def finish(inp):
    """derived fields: denominator, frequencies"""
    we = weff(inp)
    den = sum(we)
    inp["den"] = den or 1
    num = sum(w * l for w, l in zip(we, inp["lam"]))
    lam0 = num / den if den and not inp.get("super") else 0
    fr = [C / math.sqrt(l * UL) for l in inp["lam"]]
    inp["fr"] = [fx(f, 1e-3) for f in fr]
    inp["f0"] = fx(C / math.sqrt(lam0 * UL), 1e-3) if lam0 else fx(np.mean(fr), 1e-3) if inp.get("super") else 0
    return inp


def paths(inp):
    d = inp["dir"]
    if d: os.makedirs(d, exist_ok=True)
    return d, (d + "/" if d else "")


SPELL = [{}, {"FREQ": "Freq"}, {"FREQ": "OBSFREQ"}, {"FREQ": "Frequency", "STOKES": "Stokes"}, {"RA---SIN": "ra---sin", "FREQ": "freq"}]


def spell(h, k):
    """axis names as other programs write them; 5: unnamed sky axes, 6: unnamed frequency axis"""
    if k == 6:
        for i in range(1, 5):
            if h.get("CTYPE%d" % i) == "FREQ": del h["CTYPE%d" % i]
        return
    if k == 5:
        for i in range(1, 5):
            if h.get("CTYPE%d" % i) in ("RA---SIN", "DEC--SIN"): del h["CTYPE%d" % i]
        return
    for i in range(1, 5):
        ct = h.get("CTYPE%d" % i)
        if ct in SPELL[k]: h["CTYPE%d" % i] = SPELL[k][ct]


def name_sky(inp):
    """gives unnamed axes of the products their names back"""
    sky = [CARDS[a["t"]][0] for a in inp["q"]["ax"] if a["t"] in "xy"]
    for root, _, fs in os.walk("."):
        for f in fs:
            if f.endswith(".fits"):
                with pf.open(os.path.join(root, f), mode="update") as hl:
                    for u in hl:
                        miss = [i for i in range(1, u.header["NAXIS"] + 1) if "CTYPE%d" % i not in u.header]
                        for i, n in zip(miss, sky): u.header["CTYPE%d" % i] = n


def write_inputs(inp):
    """input cubes; voxels flagged in in.q/in.u are flagged in one of several ways"""
    d, pre = paths(inp)
    q, u = dict(inp["q"]), dict(inp["u"])
    qd = np.array([np.nan if v == NAN else float(v) for v in q["d"]])
    ud = np.array([np.nan if v == NAN else float(v) for v in u["d"]])
    fl = np.isnan(qd) | np.isnan(ud)
    i = None
    if inp["hasi"]:
        i = np.array([np.nan if v == NAN else float(v) for v in inp["i"]["d"]])
        with np.errstate(invalid="ignore"):
            qd, ud = qd * i, ud * i
    how = np.random.RandomState(inp["seed"]).randint(0, 5, size=qd.size)
    for k in np.flatnonzero(fl):
        h = how[k]
        if h == 0: qd[k] = ud[k] = np.nan
        elif h == 1: qd[k], ud[k] = np.nan, 3.0
        elif h == 2: qd[k], ud[k] = -2.0, np.nan
        elif h == 3: qd[k], ud[k] = np.inf, 1.0
        else: qd[k], ud[k] = 2.0, -np.inf
        if i is not None and i[k] == 0: qd[k], ud[k] = 3.0, -1.0
    shape = [a["n"] for a in q["ax"]][::-1]
    from cubelib import header
    def put(name, v, axes):
        h = header(axes)
        for kk, vv in inp["cards"].items(): h[kk] = vv
        spell(h, inp.get("spell", 0))
        if not inp.get("bunit", 1): del h["BUNIT"]
        pf.writeto(pre + name, v.reshape(shape).astype(inp["dtype"]), h, overwrite=True)
    unit = 2.0 ** inp.get("pow", 0)
    qd, ud = qd * unit, ud * unit
    if i is not None: i = i * unit
    put("q.fits", qd, q["ax"]); put("u.fits", ud, u["ax"])
    if i is not None: put("i.fits", i, inp["i"]["ax"])
    np.savetxt(pre + "freq.dat", [C / math.sqrt(l * UL) for l in inp["lam"]], fmt="%.17g")
    argv = ["s", pre + "q.fits", pre + "u.fits", pre + "freq.dat"]
    if i is not None: argv += ["-i", pre + "i.fits"]
    if inp["weighting"] == "variance" and inp.get("lone"): argv += ["-w", "variance"]      # no noise to weight by
    elif inp.get("lone"):
        np.savetxt(pre + "noise.dat", 10.0 ** np.random.RandomState(inp["seed"] + 1).uniform(-3, 1, len(inp["lam"])))   # noise that uniform weights ignore
        argv += ["-n", pre + "noise.dat"] + ([] if inp["seed"] % 2 else ["-w", "uniform"])
    elif inp["weighting"] == "variance":
        with np.errstate(divide="ignore"):
            np.savetxt(pre + "noise.dat", [np.nan if w == NAN else 2.0 ** inp.get("wpow", 0) / np.sqrt(float(w)) for w in inp["w"]], fmt="%.17g")
        argv += ["-w", "variance", "-n", pre + "noise.dat"]
    uphi = unit_phi(inp["g"], inp["den"])
    dphi = uphi * inp["step"]
    if "auto" not in inp: argv += ["-l", repr(dphi * inp["h"]), "-d", repr(dphi)]
    if inp["prefix"]: argv += ["-o", inp["prefix"]]
    return pre + inp["prefix"], argv, uphi


def run_synth3(inp):
    with Scratch("s3"):
        pre, argv, uphi = write_inputs(inp)
        if inp["multi"]: argv.append("-f")
        if not inp["rmsf"]: argv.append("-R")
        if inp["fit"]: argv.append("-t")
        cli(S3.main, argv)
        fd = uphi / 100
        lam = np.array(inp["lam"]) * UL
        width = (lam.max() - lam.min()) * 1000
        names = ["FDF_dirty"] * 3 if inp["multi"] else ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"]
        if inp.get("spell") == 5: name_sky(inp)
        out, l0 = {}, []
        flux = 1e4 / 2.0 ** inp.get("pow", 0)
        for k, (key, n) in enumerate(zip(("re", "im", "tot"), names)):
            e = k if inp["multi"] else 0
            out[key] = read(pre + n + ".fits", flux, e, fd)
            l0.append(fx(pf.getheader(pre + n + ".fits", e)["LAMSQ0"] / UL * inp["den"], 100))
        if inp["rmsf"]:
            names = ["RMSF"] * 4 if inp["multi"] else ["RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"]
            for k, (key, n) in enumerate(zip(("rre", "rim", "rtot", "fwhm"), names)):
                e = k if inp["multi"] else 0
                out[key] = read(pre + n + ".fits", 1e5 if k < 3 else width, e, fd)
                if k < 3: l0.append(fx(pf.getheader(pre + n + ".fits", e)["LAMSQ0"] / UL * inp["den"], 100))
        out["maxpi"] = read(pre + "FDF_maxPI.fits", flux, 0, fd)
        out["peakrm"] = read(pre + "FDF_peakRM.fits", 1 / fd, 0, fd)
        out["lam0"] = l0
        out["units"] = units(inp, pre)
        return out


def units(inp, pre, peaks=True):
    """the units that the product files claim: spectrum, its response, width, peak maps"""
    def u(n, e=0): return str(pf.getheader(pre + n + ".fits", e).get("BUNIT", "")).strip()
    m = inp["multi"]
    o = dict(fdf=[u("FDF_dirty", k) if m else u(n) for k, n in enumerate(("FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"))] if peaks else [],
             rmsf=[], fwhm="", maxpi=u("FDF_maxPI") if peaks else "", peakrm=u("FDF_peakRM") if peaks else "")
    if inp["rmsf"]:
        o["rmsf"] = [u("RMSF", k) if m else u(n) for k, n in enumerate(("RMSF_real", "RMSF_im", "RMSF_tot"))]
        o["fwhm"] = u("RMSF", 3) if m else u("RMSF_FWHM")
    return o


def own_width(lam2, w, phi, sup):
    """the width that the library finds for this sampling; NaN when rounding decides it"""
    def once(x, v):
        return float(get_rmsf_planes(x, np.array(phi), weightArr=v, fitRMSF=True, fitRMSFreal=sup, lam0Sq_m2=0 if sup else None, double=True).fwhmRMSFArr)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, v = np.array(lam2, float), np.array(w, float)
        own = once(x, v)
        g = np.random.default_rng(3)
        near = [once(x * (1 + 1e-6 * g.standard_normal(len(x))), v * (1 + 1e-6 * g.standard_normal(len(v)))) for _ in range(3)]
    if not (np.isfinite(own) and own < 2 * (phi[-1] - phi[0]) and all(abs(o - own) <= 1e-3 * own for o in near)): return float("nan")
    return own


def run_auto3(inp):
    """grids left to the tool, with its other switches; the module interface for the partial products"""
    import sys
    with Scratch("s3"):
        pre, argv, uphi = write_inputs(inp)
        lam = np.array(inp["lam"]) * UL
        W = (lam.max() + lam.min()) if inp["super"] else (lam.max() - lam.min())
        fwhm = (2.0 if inp["super"] else 3.8) / W
        dphi = uphi * inp["step"] if inp["dset"] else fwhm / (inp["ns10"] / 10)
        fd = uphi / 100 if inp["dset"] else 1e-5 / UL
        phimax = (inp["lset"] + inp["frac"] / 10.0) * dphi if inp["lset"] else None
        arg = lambda o: next((argv[i + 1] for i, a in enumerate(argv) if a == o), None)
        if inp["api"]:
            nz = arg("-n")
            kw = dict(not_rmsynth=inp["api"] == 2, not_rmsf=not inp["rmsf"])
            hd, q = S3.readFitsCube(argv[1], False)
            out3 = S3.run_rmsynth(q, S3.readFitsCube(argv[2], False)[1], S3.readFreqFile(argv[3], False), dataI=S3.readFitsCube(arg("-i"), False)[1] if arg("-i") else None,
                                  rmsArr=S3.readFreqFile(nz, False) if nz else None, phiMax_radm2=phimax, dPhi_radm2=dphi if inp["dset"] else None, nSamples=inp["ns10"] / 10,
                                  weightType=arg("-w") or "uniform", fitRMSF=bool(inp["fit"]), super_resolution=bool(inp["super"]), verbose=False, **kw)
            d = inp["dir"]
            S3.writefits(out3, hd, prefixOut=inp["prefix"], outDir=d, write_seperate_FDF=not inp["multi"], do_peakmaps=False, verbose=False, **kw)
        else:
            if inp["dset"]: argv += ["-d", repr(dphi)]
            if phimax: argv += ["-l", repr(phimax)]
            if inp["ns10"] != 50 or inp["seed"] % 2: argv += ["-s", repr(inp["ns10"] / 10)]
            if inp["fit"]: argv += ["-t"]
            if inp["super"]: argv += ["-r"]
            if inp["multi"]: argv.append("-f")
            if inp["seed"] % 3 == 0: argv.append("-v")
            if not inp["rmsf"]: argv.append("-R")
            old = sys.stdin
            sys.stdin = io.StringIO("\n")
            try:
                with contextlib.redirect_stdout(io.StringIO()): cli(S3.main, argv)
            finally: sys.stdin = old
        if inp.get("spell") == 5: name_sky(inp)
        flux = 1e4 / 2.0 ** inp.get("pow", 0)
        out, l0 = dict(re=[], im=[], tot=[], rre=[], rim=[], rtot=[], fwhm=[], own=[], maxpi=[], peakrm=[]), []
        if inp["api"] != 2:
            names = ["FDF_dirty"] * 3 if inp["multi"] else ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"]
            for k, (key, n) in enumerate(zip(("re", "im", "tot"), names)):
                e = k if inp["multi"] else 0
                out[key] = read(pre + n + ".fits", flux, e, fd)
                l0.append(fx(pf.getheader(pre + n + ".fits", e)["LAMSQ0"] / UL * inp["den"], 100))
        if inp["rmsf"]:
            names = ["RMSF"] * 4 if inp["multi"] else ["RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"]
            for k, (key, n) in enumerate(zip(("rre", "rim", "rtot", "fwhm"), names)):
                e = k if inp["multi"] else 0
                out[key] = read(pre + n + ".fits", 1e5 if k < 3 else 1000 / fwhm, e, fd)
                if k < 3: l0.append(fx(pf.getheader(pre + n + ".fits", e)["LAMSQ0"] / UL * inp["den"], 100))
            if inp["fit"] or inp["super"]:
                q, u = spectra(inp["q"]), spectra(inp["u"])
                bad = np.isnan(q + u)
                we = weff(inp)
                h = pf.getheader(pre + names[0] + ".fits")
                a = next(b for b in out["rre"]["ax"] if b["t"] == "p")
                nh = half_of(a["n"])
                phi = np.arange(-nh, nh + 1) * dphi
                for y in range(q.shape[1]):
                    for x in range(q.shape[2]):
                        w = np.where(bad[:, y, x], 0, we)
                        out["own"].append(fx(own_width(lam, w, phi, bool(inp["super"])) / fwhm, 1000) if (w > 0).sum() > 1 else NAN)
            else: out["own"] = [1000] * (spectra(inp["q"])[0].size)
        peaks = not inp["api"]
        if peaks:
            out["maxpi"] = read(pre + "FDF_maxPI.fits", flux, 0, fd)
            out["peakrm"] = read(pre + "FDF_peakRM.fits", 1 / fd, 0, fd)
        have = sorted(os.path.basename(f)[len(inp["prefix"]):] for f in os.listdir(inp["dir"] or ".") if "FDF_" in f or "RMSF" in f)
        out["files"] = have
        out["lam0"] = l0
        return out


def half_of(n2):
    """half length of the grid whose doubled grid has n2 points"""
    for h in range(0, 4000):
        n = 2 * h + 1
        if n + 2 * ((n + 1) // 2) == n2: return h
    return 0


DIRS = ["", "", "out", "my_real_im_tot.d", "a/b_tot"]
PREF = ["", "", "p_", "field_total_", "im_real_"]


def mk_synth3(rng, order=None, sizes=None):
    order = order or mk_order(rng)
    nch = rng.choice([2, 3, 4, 5, 7])
    sz = sizes or dict(x=rng.randint(1, 4), y=rng.randint(1, 4), f=nch, s=1)
    sz.setdefault("s", 1)
    nch = sz["f"]
    tot = sz["x"] * sz["y"] * nch
    lam = sorted(rng.sample(range(40, 40 + 30 * nch), nch), reverse=rng.random() < .6)
    if rng.random() < .15: rng.shuffle(lam)
    q = mk_image(rng, sz, "f", order, [rng.randint(-5, 5) for _ in range(tot)])
    u = dict(ax=q["ax"], d=[rng.randint(-5, 5) for _ in range(tot)])
    weighting = rng.choice(["uniform", "uniform", "variance"])
    hasi = weighting == "uniform" and rng.random() < .5
    w = [1] * nch if weighting == "uniform" else [rng.choice([1, 2, 3, 4, 6, NAN]) for _ in range(nch)]
    inp = dict(op="synth3", q=q, u=u, i=dict(ax=q["ax"], d=[]), hasi=hasi, w=w, lam=lam, weighting=weighting)
    a = spectra(q).astype("int64"); b = spectra(u).astype("int64")   # [f,y,x]
    c = np.array([[[rng.choice([1, 2, 3, 5, 7, 9]) for _ in range(sz["x"])] for _ in range(sz["y"])] for _ in range(nch)])
    pf_ = rng.choice([0, 0, .1, .3])
    for idx in np.ndindex(a.shape):
        if rng.random() < pf_: a[idx] = b[idx] = NAN
    r = rng.random()
    if r < .2: a[rng.randrange(nch)] = NAN                                   # whole plane
    if .2 < r < .4: a[:, rng.randrange(sz["y"]), rng.randrange(sz["x"])] = NAN  # whole pixel
    if .4 < r < .5:
        y, x = rng.randrange(sz["y"]), rng.randrange(sz["x"])
        a[:, y, x] = 0; b[:, y, x] = 0
    if hasi:
        for idx in np.ndindex(a.shape):
            if rng.random() < .05: c[idx] = 0; a[idx] = NAN
        if rng.random() < .3:
            y, x = rng.randrange(sz["y"]), rng.randrange(sz["x"])
            c[:, y, x] = NAN; a[:, y, x] = NAN
    def back(v): return place(v, order, sz)
    inp["q"] = dict(ax=q["ax"], d=back(a)); inp["u"] = dict(ax=q["ax"], d=back(b))
    if hasi: inp["i"] = dict(ax=q["ax"], d=back(c))
    h = rng.randint(1, 5)
    # depth lattice: product step*h*g*lam must stay small
    inp.update(h=h, step=rng.randint(1, 6), g=rng.choice([1, 2, 5]), dir=rng.choice(DIRS), prefix=rng.choice(PREF), multi=rng.random() < .3,
               rmsf=rng.random() < .85, fit=False, dtype=rng.choice(["float32", "float32", "float64"]), seed=rng.randint(0, 999),
               cards=rng.choice([{}, {}, {"BTYPE": "INTENSITY"}, {"DATAMAX": 3.0, "DATAMIN": -2.0}]), tol=90, rtol=300, l0tol=60)
    if rng.random() < .4: inp["pow"] = rng.choice([-22, -8, 9])
    if rng.random() < .4: inp["wpow"] = rng.choice([-18, 7])
    inp["spell"] = rng.choice([0, 0, 1, 2, 3, 4, 5] + ([6, 6] if order[-1] == "f" else []))
    inp["bunit"] = int(rng.random() < .8)
    return finish(inp)


def place(a, order, sz):
    """[f,y,x] array -> values of an image with the given FITS axis order"""
    roles = ["f", "y", "x"]
    t = np.transpose(a, [roles.index(r) for r in order[::-1] if r in roles])
    return [int(v) for v in np.ravel(t)]


def mk_auto3(rng, order=None, sizes=None):
    """a small cube whose grids the tool has to choose"""
    order = order or mk_order(rng)
    many = rng.random() < .15
    sz = sizes or (dict(x=1, y=1, f=rng.randint(24, 34), s=1) if many else dict(x=rng.randint(1, 2), y=rng.randint(1, 2), f=rng.choice([2, 3, 5, 7]), s=1))
    inp = mk_synth3(rng, order, sz)
    n = len(inp["lam"])
    inp["op"] = "auto3"; inp["auto"] = 1
    inp["lone"] = int(rng.random() < .3 and not (inp["hasi"] and rng.random() < .6))
    if inp["lone"]:
        inp["w"] = [1] * n
        inp["weighting"] = rng.choice(["uniform", "uniform", "variance"])
    elif inp["hasi"] and rng.random() < .3:
        inp["weighting"] = "variance"; inp["w"] = [rng.choice([1, 2, 3]) for _ in range(n)]
    if many: inp["lam"] = sorted(rng.sample(range(60, 60 + 2 * n), n)) if rng.random() < .5 else [60 + rng.choice([1, 2]) + 2 * i for i in range(n)]
    inp.update(super=int(rng.random() < .3), fit=int(rng.random() < .4), rmsf=rng.random() < .8, api=rng.choice([0, 0, 0, 1, 2]), dset=int(rng.random() < .3))
    if inp["api"] == 2: inp["rmsf"] = True
    inp["ns10"] = 50 if many and rng.random() < .3 else rng.choice([10, 15, 20, 30]) if not inp["dset"] else rng.choice([30, 50])
    inp["frac"] = rng.randint(-4, 4)
    finish(inp)
    lam = inp["lam"]
    d = max(abs(a - b) for a, b in zip(lam, lam[1:]))
    W = max(lam) + min(lam) if inp["super"] else max(lam) - min(lam)
    c = 2.0 if inp["super"] else 3.8
    m = max(math.sqrt(3) / d, 10 * c / W)                          # automatic extent
    if inp["dset"]:
        inp["g"] = 1
        inp["step"] = max(1, round(m / (inp["den"] * math.pi / 720) / rng.randint(5, 40)))
        inp["lset"] = rng.choice([0, 0, rng.randint(1, 12)])
        if m / (inp["den"] * math.pi / 720 * inp["step"]) < 1 or m / (inp["den"] * math.pi / 720 * inp["step"]) > 60: inp["lset"] = rng.randint(1, 12)
    else: inp["lset"] = rng.choice([0, 0, 0, rng.randint(1, 20)])
    if not inp["lset"] and not inp["dset"] and m / (c / W / (inp["ns10"] / 10)) > 90: inp["lset"] = rng.randint(2, 20)
    return inp
