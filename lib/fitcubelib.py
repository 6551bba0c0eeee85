"""Stokes I cubes fitted and moved to a new reference frequency, with forced schedules or real pools."""
import glob, hashlib, os, random, subprocess, sys, warnings
import numpy as np
import astropy.io.fits as pf
from vlib import fx, fxa, NAN
import random
from cubelib import turn, mkax, header, write, read, axes_of, cli, Scratch, FREQORD
from cleanlib import StandInPool
import stokeslib
import RMtools_3D.do_fitIcube as FI, RMtools_3D.rescale_I_model_3D as RS
import RMutils.util_misc as M


class Mp:
    """multiprocessing with a pool of prescribed completion order"""
    def __init__(self, real, order, chunk):
        self.real, self.order, self.chunk = real, order, chunk

    def __getattr__(self, k):
        return getattr(self.real, k)

    def set_start_method(self, *a, **k): pass
    def get_context(self, *a, **k): return self

    def Pool(self, *a, **k):
        outer = self

        class P(StandInPool):
            def map(self, func, it, chunksize=None): return self._run(func, list(it), outer.chunk)[0]
            def imap(self, func, it, chunksize=1): return iter(self.map(func, it))
            def starmap(self, func, it, chunksize=None): return self._run(func, list(it), outer.chunk, star=True)[0]
        return P(self.order, True)

    def process_map(self, func, *its, **k):
        p = StandInPool(self.order, True)
        return p._run(func, list(zip(*its)), self.chunk, star=True)[0]


class patched:
    def __init__(self, order, chunk):
        self.order, self.chunk = order, chunk
    def __enter__(self):
        self.old = (FI.mp, getattr(FI, "process_map", None), RS.mp)
        m = Mp(FI.mp, self.order, self.chunk)
        FI.mp = RS.mp = m
        if self.old[1]: FI.process_map = m.process_map
    def __exit__(self, *a):
        FI.mp, RS.mp = self.old[0], self.old[2]
        if self.old[1]: FI.process_map = self.old[1]


def digest(pat="*"):
    return {f: hashlib.md5(open(f, "rb").read()).hexdigest() for f in glob.glob(pat) if os.path.isfile(f)}


def freqs_of(inp):
    a = [x for x in inp["ax"] if x["t"] == "f"][0]
    if inp["ffile"]: return np.array(inp["ffile"], float) * 1e5
    return (a["v"] + (np.arange(1, a["n"] + 1) - a["p"] / 10.0) * a["s"]) * 1e5


def put_cube(inp, path):
    ax, u = inp["ax"], 2.0 ** inp["pow"]
    d = np.array([[np.nan if v == NAN else v * u for v in row] for row in inp["data"]])     # [p, j]
    a = d.T.reshape(inp["nchan"], inp["ny"], inp["nx"])
    roles = "fyx"
    t = np.transpose(a, [roles.index(b["t"]) for b in ax[::-1] if b["t"] in "fyx"]).reshape([b["n"] for b in ax][::-1])
    h = header(ax)
    if inp["nounit"]: del h["BUNIT"]
    if inp["lower"]:
        for i in range(1, len(ax) + 1):
            if h["CTYPE%d" % i] == "FREQ": h["CTYPE%d" % i] = "Freq"
    if inp.get("bare"): del h["CTYPE%d" % len(ax)]
    pf.writeto(path, t.astype(inp["dtype"]), h)
    return d


def run_fitcube(inp):
    with Scratch("fit"):
        os.makedirs("sub")
        cube = ("sub/" if inp["sub"] else "") + "i.fits"
        d = put_cube(inp, cube)
        outdir = "sub" if inp["sub"] else "."
        f = freqs_of(inp)
        argv = ["f", cube, "-p", inp["ord"], "-f", inp["fn"], "-t", "%.10g" % (inp["thr"] / 1000.0 * (2.0 ** inp["pow"] if inp["thr"] > 0 else 1)),
                "-o", inp["prefix"], "-n", inp["ncores"], "-c", inp["chunk"]]
        if inp["mask"]: argv.append("-m")
        if inp["verbose"]: argv.append("-v")
        if inp["odir"]:
            os.makedirs("res"); argv += ["-odir", "res"]; outdir = "res"
        if inp["ffile"]:
            np.savetxt("f.dat", f); argv += ["-freqFile", "f.dat"]
        bef = digest(cube)
        if inp["real"]:
            subprocess.run([sys.executable, "-W", "ignore", "-m", "RMtools_3D.do_fitIcube"] + [str(a) for a in argv[1:]], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
        else:
            with patched(inp["order"], inp["chunk"]): cli(FI.main, argv)
        un = digest(cube) == bef
        pre = os.path.join(outdir, inp["prefix"])
        no = abs(inp["ord"]) + 1
        need = ["mask.fits", "reffreq.fits", "covariance.fits", "model.i.fits", "noise.dat"] + ["coeff%d%s.fits" % (k, e) for k in range(no) for e in ("", "err")]
        prod = all(os.path.exists(pre + n) for n in need)
        nz = np.atleast_1d(np.loadtxt(pre + "noise.dat"))
        u = 2.0 ** inp["pow"]
        nx, ny = inp["nx"], inp["ny"]
        sky, maps = True, {}
        m0 = read(pre + "mask.fits")
        for n in need:
            if n.startswith("coeff") or n == "reffreq.fits":
                h = pf.getheader(pre + n)
                sky &= axes_of(h) == m0["ax"]
                maps[n[:-5]] = np.asarray(pf.getdata(pre + n), float).reshape(ny, nx).ravel()
        covax = axes_of(pf.getheader(pre + "covariance.fits"))[2:]
        cv = np.asarray(pf.getdata(pre + "covariance.fits"), float)
        sky &= axes_of(pf.getheader(pre + "covariance.fits"))[:2] == m0["ax"]
        cv = cv.reshape(6, 6, ny * nx)
        z = np.zeros(nx * ny)
        sel = np.asarray(pf.getdata(pre + "mask.fits")).ravel() == 1
        blank = np.where(sel, 0.0, np.nan)
        coef = np.array([maps.get("coeff%d" % (5 - k), z + blank) for k in range(6)])      # high to low
        err = np.array([maps.get("coeff%derr" % (5 - k), z + blank) for k in range(6)])
        ref = maps["reffreq"]
        if inp.get("bare"):
            with pf.open(pre + "model.i.fits", mode="update") as hl:
                if "CTYPE3" not in hl[0].header: hl[0].header["CTYPE3"] = "FREQ"
        mm = read(pre + "model.i.fits")
        mh = pf.getheader(pre + "model.i.fits"); md = np.asarray(pf.getdata(pre + "model.i.fits"), float)
        if md.ndim != 3 or md.shape != (inp["nchan"], ny, nx): raise ValueError("model shape %r" % (md.shape,))
        md = md.reshape(inp["nchan"], -1)
        # each pixel alone
        one, out = [], dict(coef=[], err=[], cov=[], ref=[], abs=[], arg=[], mabs=[])
        U = u * 1000.0
        ff = np.loadtxt("f.dat") if inp["ffile"] else f
        msc = np.ones(nx * ny)
        for p in range(nx * ny):
            if not sel[p]:
                one.append(dict(coef=[0], err=[0], cov=[0], ref=0, model=[0], loose=True))
                for k in ("coef", "err"): out[k].append(fxa(dict(coef=coef, err=err)[k][:, p], 1e5))
                out["cov"].append(fxa(cv[:, :, p].ravel(), 1e5)); out["ref"].append(fx(ref[p], 1e-4))
                out["abs"].append([0] * 6); out["arg"].append([NAN] * inp["nchan"]); out["mabs"].append([NAN] * inp["nchan"])
                continue
            r = M.fit_StokesI_model(ff, d[p].astype(inp["dtype"]), nz, polyOrd=inp["ord"], fit_function=inp["fn"])
            mo = M.calculate_StokesI_model(r, ff)
            C, E = np.asarray(r.params, float), np.asarray(r.perror, float)
            pc = np.full((6, 6), np.nan) if r.pcov is None else np.asarray(r.pcov, float)
            cs = np.maximum(np.abs(np.where(np.isfinite(C), C, 0)), E); cs[cs == 0] = 1
            es = np.where(E > 0, E, 1.0)
            ms = np.nanmax(np.abs(mo)) if np.any(np.isfinite(mo)) else 1.0
            ms = ms if 0 < ms < np.inf else 1.0
            msc[p] = ms
            one.append(dict(coef=fxa(C / cs, 1e5), err=fxa(E / es, 1e5), cov=fxa((pc / np.outer(es, es)).ravel(), 1e5),
                            ref=fx(r.reference_frequency_Hz, 1e-4), model=fxa(mo / ms, 1e5), loose=bool(inp["fn"] == "log" and abs(C[5]) < 20 * E[5])))
            out["coef"].append(fxa(coef[:, p] / cs, 1e5)); out["err"].append(fxa(err[:, p] / es, 1e5))
            out["cov"].append(fxa((cv[:, :, p] / np.outer(es, es)).ravel(), 1e5)); out["ref"].append(fx(ref[p], 1e-4))
            a = coef[:, p].copy()
            if inp["fn"] == "linear": a = a / U
            else: a[5] /= U
            out["abs"].append(fxa(a, 1e5))
            x = ff / ref[p]
            out["arg"].append(fxa(x if inp["fn"] == "linear" else np.log10(x), 1e5))
            out["mabs"].append(fxa(md[:, p] / U, 1e5))
        mm["d"] = fxa((md / msc).ravel(), 1e5)
        out.update(one=one, maskmap=m0, modelmap=mm, sky=bool(sky), covax=covax, products=bool(prod), noise=fxa(nz / u, 1000), untouched=un)
        m0["d"] = fxa(pf.getdata(pre + "mask.fits").ravel(), 1)
        return out


def fit_case(rng, sel=None, use=None, order=None, maxord=None, ords=None, chunk=None, layout=None, size=None, nchan=None):
    lay = layout or rng.choice(FREQORD[rng.choice([3, 3, 4])])
    if size: nx, ny = size
    else: nx, ny = rng.choice([(1, 3), (3, 1), (2, 3), (3, 2), (4, 3), (2, 2), (5, 2), (1, 1)])
    if len(lay) == 4: nx, ny = max(nx, 2), max(ny, 2)
    n = nchan or rng.choice([8, 9, 12])
    step = rng.choice([200, 350, -300, 500]) if n < 20 else rng.choice([20, -15])
    v = rng.choice([8000, 14000]) if step > 0 else rng.choice([14000, 18000])
    ax = []
    for t in lay:
        if t == "x": ax.append(mkax("x", nx, 187000000, rng.choice([10, 5, -35]), -277))
        elif t == "y": ax.append(mkax("y", ny, 45000000, rng.choice([10, 15]), 277))
        elif t == "s": ax.append(mkax("s", 1, 1, 10, 1))
        else: ax.append(mkax("f", n, v, 10, step))
    turn(rng, ax)
    np_ = nx * ny
    fn = rng.choice(["log", "linear"])
    ordv = maxord if maxord is not None else rng.choice([0, 1, 2, 3, -1, -2, -3])
    if ordv == 3 and fn == "linear": ordv = 2
    f = np.array([v + j * step for j in range(n)]) / 1e4
    x = (f - f.mean()) / (np.ptp(f) / 2)
    if sel is None: sel = [rng.random() < .5 for _ in range(np_)]
    sel = (list(sel) * np_)[:np_]
    nse = [rng.choice([8, 20, 40]) for _ in range(n)]
    data = []
    for p in range(np_):
        if sel[p]:
            o = ords[p % len(ords)] if ords else rng.choice([0, 1, 2])
            A = rng.randint(900, 4000)
            row = [int(A * (1 + (o > 0) * rng.choice([-.3, .3, .2]) * t + (o > 1) * rng.choice([.1, -.1]) * t * t) + rng.gauss(0, nse[j])) for j, t in enumerate(x)]
        else: row = [int(rng.gauss(0, nse[j])) for j in range(n)]
        data.append(row)
    use = (rng.random() < .5) if use is None else use
    if rng.random() < .35:
        p = rng.randrange(np_); kind = rng.random()
        if kind < .4: data[p] = [NAN] * n
        elif kind < .7: data[p][rng.randrange(n)] = NAN; data[p][rng.randrange(n)] = NAN
        elif kind < .85: data[p] = [0] * n
        else: data[p] = [-abs(w) for w in data[p]]
    if rng.random() < .25:
        j = rng.randrange(n)
        for p in range(np_): data[p][j] = NAN
    thr = rng.choice([-3000, -5000, -1500, 300000, 700000, 50000])
    ffile = []
    if rng.random() < .25:
        ffile = [v + j * step + rng.choice([0, 8, -16]) for j in range(n)]
    return dict(op="fitcube", ax=ax, nx=nx, ny=ny, nchan=n, data=data, fn=fn, ord=ordv, thr=thr, mask=use, pow=rng.choice([-7, -7, -20, 6, -30]),
                chunk=chunk or rng.choice([1, 1, 2, 5]), order=order if order is not None else [rng.randint(0, 9) for _ in range(np_)], ncores=rng.choice([1, 2, 4]),
                verbose=rng.random() < .5, prefix=rng.choice(["", "src_", "m.1."]), sub=rng.random() < .5, odir=rng.random() < .3, ffile=ffile,
                dtype=rng.choice(["float32", "float32", "float64"]), nounit=rng.random() < .2, lower=bool(ffile) and rng.random() < .5, real=False, chkaxis=True,
                bare=int(bool(ffile) and lay[-1] == "f" and rng.random() < .4))


# ------------------------------------------------------------------ new reference
def run_rescale(inp):
    with Scratch("resc"):
        nx, ny, fn = inp["nx"], inp["ny"], inp["fn"]
        np_ = nx * ny
        bl = np.array(inp["blank"])
        sc = inp["sc"]
        p = np.array(inp["p"], float).T / 1e5                          # [k, q]
        if fn == "linear": p = p * sc
        else: p[5] *= sc
        cov = np.moveaxis(np.array(inp["cov"], float), 0, 2)           # [i, j, q]
        if fn == "log":
            g = np.array([1, 1, 1, 1, 1, sc]); cov = cov * np.outer(g, g)[:, :, None]
        p[:, bl] = np.nan; cov[:, :, bl] = np.nan
        F = inp["f0"]
        old = np.array([F * (st[1] / st[0] if fn == "linear" else 10 ** (-st[0] / 1e5)) for st in inp["st"]])
        if inp["mode"] == "mean": old = np.array(inp["old"], float)
        old[bl] = np.nan
        shp = (ny, nx)
        hdr = header(turn(random.Random(int(F) // 1000 + np_), [mkax("x", nx, 187000000, 10, -277), mkax("y", ny, 45000000, 10, 277)]))
        hdr["BUNIT"] = "Hz"
        hdr["HISTORY"] = "Stokes I model fitted by RM-Tools"
        if inp["oldhist"]: hdr["HISTORY"] = "Fit model is 2-order %s-polynomial" % ("log" if fn == "linear" else "linear")
        hdr["HISTORY"] = ("Fit model is dynamic order %s-polynomial, max order 5" % fn) if inp["dyn"] else "Fit model is 5-order %s-polynomial" % fn
        dt = inp["dtype"]
        un, ref, prod = True, -1, True
        if inp["mode"] == "api":
            args = [cov.reshape((6, 6) + shp).astype(dt), old.reshape(shp).astype(dt), np.where(bl, F, inp["newmap"] if inp["newmap"] else F).reshape(shp).astype("float64"),
                    p.reshape((6,) + shp).astype(dt)]
            if inp["newmap"]:
                args[1] = (np.array([nf * (st[1] / st[0] if fn == "linear" else 10 ** (-st[0] / 1e5)) for nf, st in zip(inp["newmap"], inp["st"])])).reshape(shp)
                args[1][bl.reshape(shp)] = np.nan
            bef = [a.copy() for a in args]
            with patched(inp["order"], 2) if not inp["real"] else _null():
                nf, nc, ne = RS.rescale_I_model_3D(*args, fit_function=fn, num_cores=inp["ncores"])
            un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))
            n = 6
        else:
            top = inp["planes"]
            pre = inp["prefix"]
            if os.path.dirname(pre): os.makedirs(os.path.dirname(pre))
            for k in range(top):
                pf.writeto(pre + "coeff%d.fits" % k, p[5 - k].reshape(shp).astype(dt), hdr)
                pf.writeto(pre + "coeff%derr.fits" % k, np.sqrt(cov[5 - k, 5 - k]).reshape(shp).astype(dt), hdr)
            pf.writeto(pre + "covariance.fits", cov.reshape((6, 6) + shp).astype(dt))
            pf.writeto(pre + "reffreq.fits", old.reshape(shp).astype("float32" if inp["mode"] != "mean" else "float64"), hdr)
            argv = ["r", pre + "covariance.fits", "-n", inp["ncores"]]
            out = pre
            if inp["mode"] == "freq": argv += ["-f", repr(F)]
            if inp["mode"] == "fdf":
                h = pf.Header(); h["LAMSQ0"] = (2.99792458e8 / F) ** 2
                pf.writeto("fdf.fits", np.zeros((2, 2), "float32"), h)
                argv += ["-l", "fdf.fits"]
            if inp["outname"]: argv += ["-o", inp["outname"]]; out = inp["outname"]
            bef = digest(pre + "*")
            hax = axes_of(pf.getheader(pre + "reffreq.fits"))
            with patched(inp["order"], 2) if not inp["real"] else _null():
                cli(RS.command_line, argv)
            aft = digest(pre + "*")
            un = all(aft.get(k) == v for k, v in bef.items())
            n = 0
            while os.path.exists(out + "newcoeff%d.fits" % n): n += 1
            nc, ne = np.zeros((6,) + shp), np.zeros((6,) + shp)
            for k in range(n):
                nc[5 - k] = pf.getdata(out + "newcoeff%d.fits" % k); ne[5 - k] = pf.getdata(out + "newcoeff%derr.fits" % k)
                h = pf.getheader(out + "newcoeff%d.fits" % k)
                prod &= axes_of(h) == hax
            ref = fx(pf.getheader(out + "newcoeff0.fits")["REFFREQ"], 1e-4)
        ok = nc.shape == (6,) + shp and ne.shape == (6,) + shp
        nc, ne = np.asarray(nc, float).reshape(6, -1), np.asarray(ne, float).reshape(6, -1)
        if fn == "linear": nc = nc / sc
        else: nc[5] /= sc; ne[5] /= sc
        P, E = [], []
        for q in range(np_):
            P.append(fxa(nc[:, q], 1e5))
            st = inp["st"][q]
            if fn == "linear": E.append([fx((ne[k, q] / (st[0] / st[1]) ** (5 - k)) ** 2, 1000) for k in range(6)])
            else: E.append([fx(ne[k, q] ** 2, 1e4) for k in range(5)] + [fx((ne[5, q] / nc[5, q]) ** 2, 1e4)])
        return dict(shape=bool(ok), p=P, err=E, nplanes=n, ref=ref, products=bool(prod), untouched=bool(un))


class _null:
    def __enter__(self): pass
    def __exit__(self, *a): pass


def rescale_case(rng, blank=None, order=None):
    fn = rng.choice(["linear", "log"])
    nx, ny = rng.choice([(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)])
    if blank is not None: nx, ny = len(blank), rng.choice([1, 2]); blank = list(blank) * ny
    n = nx * ny
    if blank is None: blank = [rng.random() < .2 for _ in range(n)]
    mode = rng.choice(["api", "freq", "fdf", "mean"])
    top = 6 if mode == "api" else rng.choice([1, 2, 3, 4, 6])
    zero = [rng.random() < .25 for _ in range(6)]
    P, C, ST = [], [], []
    F = rng.choice([1e9, 1.4e9, 8.87e8])
    old = []
    if mode == "mean":
        old = [F * rng.choice([.88, .9, 1.0, 1.1, 1.12, .95]) for _ in range(n)]
        g = [o for o, b in zip(old, blank) if not b]
        if not g: blank[0] = False; g = [old[0]]
        F = float(np.mean(g))
    for q in range(n):
        c = stokeslib.renorm_case(rng, fn=fn)
        p = [0 if (zero[k] and k < 5) or 5 - k >= top else c["p"][k] for k in range(6)]
        P.append(p)
        cov = np.array(c["cov"])
        for k in range(6):
            if 5 - k >= top: cov[k, :] = 0; cov[:, k] = 0
        C.append(cov.tolist())
        st = c["steps"][0]
        if mode == "mean":
            x = F / old[q]
            st = [int(round(x * 20000)), 20000] if fn == "linear" else [int(round(np.log10(x) * 1e5))]
        ST.append(st)
    args = [rng.randint(75000, 125000) for _ in range(3)] if fn == "linear" else [rng.randint(-20000, 20000) for _ in range(3)]
    newmap = [F * rng.choice([.9, 1.0, 1.2]) for _ in range(n)] if mode == "api" and rng.random() < .5 else []
    covmax = max(abs(v) for c in C for r in c for v in r)
    return dict(op="rescale", nx=nx, ny=ny, fn=fn, p=P, cov=C, covmax=covmax, st=ST, args=args, blank=blank, mode=mode, old=old, f0=F, newmap=newmap,
                newref=int(round(F * 1e-4)), planes=top, dtype=rng.choice(["float64", "float32", ">f4"]), dyn=rng.random() < .5, order=order or [rng.randint(0, 9) for _ in range(n)],
                ncores=rng.choice([1, 2, 5]), prefix=rng.choice(["", "a_", "d.x/pre"]), outname=rng.choice(["", "", "o_"]), real=False, oldhist=rng.random() < .3,
                sc=rng.choice([1.0, 1.0, 1e-6, 1e3]) if fn == "log" else 1.0)


def run_chain(inp):
    """fit a cube, then move the model it wrote to a new reference frequency"""
    with Scratch("chain"):
        put_cube(inp, "i.fits")
        with patched(inp["order"], inp["chunk"]):
            cli(FI.main, ["f", "i.fits", "-p", inp["ord"], "-f", inp["fn"], "-t", "%.10g" % (300 * 2.0 ** inp["pow"]) if inp["mask"] else "-3", "-o", inp["prefix"]] + (["-m"] if inp["mask"] else []))
        pre = inp["prefix"]
        no, U = abs(inp["ord"]) + 1, 2.0 ** inp["pow"] * 1000
        shp = (6, inp["nx"] * inp["ny"])
        def get(pat):
            a, n = np.zeros(shp), 0
            while os.path.exists(pre + pat % n):
                a[5 - n] = pf.getdata(pre + pat % n).ravel(); n += 1
            return a, n
        c0, _ = get("coeff%d.fits")
        ref = np.asarray(pf.getdata(pre + "reffreq.fits"), float).ravel()
        hax = axes_of(pf.getheader(pre + "coeff0.fits"))
        bef = digest(pre + "*")
        argv = ["r", pre + "covariance.fits"]
        if inp["how"] == "freq": argv += ["-f", repr(inp["newf"])]
        with patched(inp["order"], inp["chunk"]): cli(RS.command_line, argv)
        aft = digest(pre + "*")
        F = inp["newf"] if inp["how"] == "freq" else float(np.nanmean(ref))
        c1, n = get("newcoeff%d.fits")
        e1, _ = get("newcoeff%derr.fits")
        h = pf.getheader(pre + "newcoeff0.fits")
        lin = inp["fn"] == "linear"
        if lin:                                     # each pixel in its own unit
            with np.errstate(all="ignore"): t = np.nanmax(np.abs(c0), axis=0) / .7
            t[~(t > 0)] = 1.0
            c0 = c0 / t; c1 = c1 / t; e1 = e1 / t
        else: c0[5] /= U; c1[5] /= U
        bl = [bool(np.isnan(c0[5, q])) for q in range(shp[1])]
        keep = [q for q in range(shp[1]) if bl[q] or np.all(np.abs(c0[:, q]) < 8)]  # beyond that TLC's integers overflow
        if not keep: keep = [0]; bl[0] = True; c1[:, 0] = np.nan; e1[:, 0] = np.nan
        c0, c1, e1, ref, bl = c0[:, keep], c1[:, keep], e1[:, keep], ref[keep], [bl[q] for q in keep]
        shp = (6, len(keep))
        rin = dict(p=[[0 if b else fx(v, 1e5) for v in c0[:, q]] for q, b in enumerate(bl)], blank=bl, fn=inp["fn"], covmax=-1, cov=[[[0]]] * shp[1],
                   st=[([20000, 20000] if b else [fx(F / ref[q], 20000), 20000]) if lin else [0 if b else fx(np.log10(F / ref[q]), 1e5)] for q, b in enumerate(bl)], args=inp["args"], newref=fx(F, 1e-4))
        rout = dict(shape=True, p=[fxa(c1[:, q], 1e5) for q in range(shp[1])], err=[fxa(e1[:, q], 1) for q in range(shp[1])], nplanes=n,
                    ref=fx(h["REFFREQ"], 1e-4), products=axes_of(h) == hax, untouched=all(aft.get(k) == v for k, v in bef.items()), exc="")
        return dict(rin=rin, rout=rout)


def chain_case(rng):
    d = fit_case(rng)
    n, np_ = d["nchan"], d["nx"] * d["ny"]
    d["mask"] = d["mask"] and np_ > 3
    rows = []
    for p in range(np_):
        A = rng.randint(900, 1900); al = rng.choice([0, -.7, .5])
        rows.append([int(A * (1 + j / n) ** al + rng.gauss(0, 10)) if not d["mask"] or p % 3 else int(rng.gauss(0, 3)) for j in range(n)])
    if rng.random() < .5: rows[0][rng.randrange(n)] = NAN
    if np_ > 5 and rng.random() < .3: rows[1] = [NAN] * n
    f = [a for a in d["ax"] if a["t"] == "f"][0]
    fn = rng.choice(["log", "log", "linear"])
    d.update(op="chain", data=rows, fn=fn, ord=rng.choice([0, 1, 2, -2]), ffile=[], lower=False, bare=0, how=rng.choice(["freq", "mean"]),
             newf=(f["v"] + f["s"] * n * rng.choice([0, .5, 1])) * 1e5, args=[rng.randint(-6000, 6000) + (100000 if fn == "linear" else 0) for _ in range(3)])
    if np_ < 3: d["how"] = "freq"
    return d


def execute(inp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {"fitcube": run_fitcube, "rescale": run_rescale, "chain": run_chain}[inp["op"]](inp)
