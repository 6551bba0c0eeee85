"""FITS images of known layout, and the pixel-moving tools run on them."""
import glob, os, shutil, sys, tempfile
import numpy as np
import astropy.io.fits as pf
from vlib import fx, fxa, NAN
import RMtools_3D.create_chunks as CC, RMtools_3D.assemble_chunks as AC, RMtools_3D.extract_region as XR

# axis role -> (CTYPE, CUNIT, world units per logged unit)
CARDS = {"x": ("RA---SIN", "deg", 1e-6), "y": ("DEC--SIN", "deg", 1e-6), "f": ("FREQ", "Hz", 1e5),
         "p": ("FDEP", "rad/m^2", 1e-2), "s": ("STOKES", "", 1.0), "o": ("VELO", "m/s", 1.0)}
ROLE = [("RA", "x"), ("DEC", "y"), ("GLON", "x"), ("GLAT", "y"), ("FREQ", "f"), ("FDEP", "p"), ("STOKES", "s")]


def role(ct):
    ct = str(ct).upper()
    if ct.startswith("DEGEN"): return "o"      # contains "RA"
    for k, r in ROLE:
        if k in ct: return r
    return "o"


def mkax(t, n, v, p, s):
    return dict(t=t, n=int(n), v=int(v), p=int(p), s=int(s))


def header(ax, units=None):
    h = pf.Header()
    for i, a in enumerate(ax, 1):
        ct, cu, un = CARDS[a["t"]]
        h["CTYPE%d" % i] = ct
        h["CRVAL%d" % i] = a["v"] * un
        h["CRPIX%d" % i] = a["p"] / 10.0
        h["CDELT%d" % i] = a["s"] * un
        if cu: h["CUNIT%d" % i] = cu
    # orientation of the sky axes: r = own and other matrix element (x1000), rotation card (x10)
    sky = {a["t"]: i for i, a in enumerate(ax, 1) if a["t"] in "xy"}
    for i, a in enumerate(ax, 1):
        if a["t"] in "xy" and "r" in a and len(sky) == 2:
            o, e, c = a["r"]
            j = sky["y" if a["t"] == "x" else "x"]
            if o != 1000: h["PC%d_%d" % (i, i)] = o / 1000.0
            if e: h["PC%d_%d" % (i, j)] = e / 1000.0
            if c: h["CROTA%d" % i] = c / 10.0
    h["BUNIT"] = "Jy/beam"
    return h


def turn(rng, ax):
    """gives the sky axes an orientation"""
    k = rng.choice("nnnpc")
    for a in ax:
        if a["t"] == "x": a["r"] = [800, -600, 0] if k == "p" else [1000, 0, 0]
        if a["t"] == "y": a["r"] = [700, 500, 0] if k == "p" else [1000, 0, 305 if k == "c" else 0]
    return ax


def write(path, img, dtype="float32", extra=None):
    shape = [a["n"] for a in img["ax"]][::-1]
    d = np.array([np.nan if v == NAN else v for v in img["d"]], dtype="float64") * img.get("sc", 1.0)
    for k in img.get("inf", []): d[k] = np.inf if k % 2 else -np.inf       # unusable, as NaN
    h = header(img["ax"])
    for k, v in (extra or {}).items(): h[k] = v
    pf.writeto(path, d.reshape(shape).astype(dtype), h, overwrite=True)


def axes_of(h, fd=None):
    """axes of a header in logged units; Faraday depth in units of fd when given"""
    ax = []
    for i in range(1, h["NAXIS"] + 1):
        t = role(h.get("CTYPE%d" % i, ""))
        un = CARDS[t][2]
        if t == "p" and fd: un = fd
        ax.append(dict(t=t, n=int(h["NAXIS%d" % i]), v=fx(h.get("CRVAL%d" % i, 0) / un, 1), p=fx(h.get("CRPIX%d" % i, 0), 10),
                       s=fx(h.get("CDELT%d" % i, 1) / un, 1)))
    sky = {a["t"]: i for i, a in enumerate(ax, 1) if a["t"] in "xy"}
    for i, a in enumerate(ax, 1):
        if a["t"] in "xy" and len(sky) == 2:
            j = sky["y" if a["t"] == "x" else "x"]
            a["r"] = [fx(h.get("PC%d_%d" % (i, i), 1), 1000), fx(h.get("PC%d_%d" % (i, j), 0), 1000), fx(h.get("CROTA%d" % i, 0), 10)]
    return ax


def read(path, scale=1.0, ext=0, fd=None):
    with pf.open(path) as hd:
        d = np.asarray(hd[ext].data, dtype="float64").ravel()
        return dict(ax=axes_of(hd[ext].header, fd), d=fxa(d, scale))


def cli(main, argv):
    old = sys.argv
    sys.argv = [str(a) for a in argv]
    try:
        main()
    finally:
        sys.argv = old


class Scratch:
    def __init__(self, name="cube"):
        self.d = tempfile.mkdtemp(prefix="verif_%s_" % name)
    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d
    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def run_pipe(inp):
    """a history of tools on one file"""
    with Scratch() as d:
        os.makedirs("in.d", exist_ok=True)
        cur, prefix = inp["name"] + ".fits", None
        os.makedirs(os.path.dirname(cur) or ".", exist_ok=True)
        write(cur, inp["img"], inp["dtype"])
        imgs, n = [], 0
        t = inp["t"]
        for k, op in enumerate(inp["hist"]):
            n += 1
            if op["op"] == "crop":
                b = op["box"]
                h = pf.getheader(cur)
                args = [b[0], b[1], b[2], b[3]]
                f = inp["form"]
                if f == "open":   # -1 for the ends of the axes
                    if b[0] == 1: args[0] = -1
                    if b[1] == h["NAXIS1"]: args[1] = -1
                    if b[2] == 1: args[2] = -1
                    if b[3] == h["NAXIS2"]: args[3] = -1
                elif f == "over":
                    if b[0] == 1: args[0] -= inp["seed"] % 4
                    if b[2] == 1: args[2] -= inp["seed"] % 3
                    if b[1] == h["NAXIS1"]: args[1] += 3
                    if b[3] == h["NAXIS2"]: args[3] += 7
                extra = []
                if f == "center":
                    if (b[0] + b[1]) % 2 == 0 and (b[2] + b[3]) % 2 == 0:
                        args = [(b[0] + b[1]) // 2, (b[1] - b[0]) // 2, (b[2] + b[3]) // 2, (b[3] - b[2]) // 2]
                        extra = ["-c"]
                out = "%s_x%d.fits" % (inp["name"], n)
                if inp["planes"]:
                    pax = [i for i in range(1, h["NAXIS"] + 1) if role(h["CTYPE%d" % i]) == t][0]
                    last = h["NAXIS%d" % pax]
                    z = [b[4], b[5]]
                    if f == "open": z = [-1 if b[4] == 1 else b[4], -1 if b[5] == last else b[5]]
                    if f == "over": z = [b[4] - (inp["seed"] % 3 if b[4] == 1 else 0), b[5] + (inp["seed"] % 5 if b[5] == last else 0)]
                    if not (b[4] == 1 and b[5] == last and inp["seed"] % 2): extra += ["-z", z[0], z[1]]
                cli(XR.main, ["x", cur, out] + args + extra)
                cur = out
                imgs.append([read(cur)])
            elif op["op"] == "split":
                argv = ["c", cur, op["n"]]
                if inp["form"] == "open": argv += ["-m"]
                pre = "%s_c%d" % (inp["name"], n)
                argv += ["-p", pre]
                cli(CC.main, argv)
                files = [f for f in glob.glob(glob.escape(pre) + ".C*.fits")]
                files.sort(key=lambda f: int(f[len(pre) + 2:-5]))
                imgs.append([read(f) for f in files])
                prefix = pre
            elif op["op"] in ("assemble", "assemble1"):
                tail = ".fits"
                if op["op"] == "assemble1":
                    tail = ".proc.fits"
                    order = list(range(len(files)))
                    np.random.RandomState(inp["seed"]).shuffle(order)
                    for i in order:
                        with pf.open(files[i]) as hd:
                            h, dat = hd[0].header.copy(), np.array(hd[0].data)
                            pax = [j for j in range(1, h["NAXIS"] + 1) if role(h["CTYPE%d" % j]) == t]
                            if pax:
                                dat = np.take(dat, [0], axis=h["NAXIS"] - pax[0])
                            pf.writeto(files[i][:-5] + ".proc.fits", (dat * 2).astype(dat.dtype), h, overwrite=True)
                pick = files[inp["seed"] % len(files)][:-5] + tail
                argv = ["a", pick]
                out = prefix + tail
                if inp["form"] in ("open", "over"):
                    out = "%s_a%d.fits" % (inp["name"], n)
                    argv += ["-f", out]
                if inp["form"] == "center": argv += ["-m"]
                cli(AC.main, argv)
                cur = out
                imgs.append([read(cur)])
        return {"imgs": imgs}


def mk_image(rng, sizes, planes_role, order, vals=None):
    """sizes: role -> length; order: roles in FITS order"""
    ax = []
    for t in order:
        n = sizes[t]
        if t == "x": ax.append(mkax("x", n, rng.choice([10, 187, 359]) * 1000000, rng.choice([10, 5, 20, -35, 10 * n]), rng.choice([-1000, -277, 500])))
        elif t == "y": ax.append(mkax("y", n, rng.choice([-30, 0, 45]) * 1000000, rng.choice([10, 15, 10 * n]), rng.choice([1000, 277])))
        elif t == "f": ax.append(mkax("f", n, rng.choice([7000, 14000]), rng.choice([10, 20, -40]), rng.choice([10, -10, 37])))
        elif t == "p": ax.append(mkax("p", n, rng.choice([0, -500]), rng.choice([10, 5 * (n + 1)]), rng.choice([100, 350])))
        elif t == "s": ax.append(mkax("s", n, rng.choice([1, 2]), rng.choice([10, 10, 0, 20]), 1))
    tot = 1
    for a in ax: tot *= a["n"]
    if vals is None:
        vals = [k + 1 for k in range(tot)]
        rng.shuffle(vals)
    return dict(ax=turn(rng, ax), d=vals)


ORDERS = {2: [["x", "y"]], 3: [["x", "y", "f"], ["x", "y", "p"]], 4: [["x", "y", "s", "f"], ["x", "y", "f", "s"]]}
NAMES = ["cube", "in.d/cube", "my.cube.v2", "in.d/a_C"]


def mk_pipe(rng, hist, sizes, ndim=None):
    nd = ndim or rng.choice([2, 3, 3, 4, 4])
    order = rng.choice(ORDERS[nd])
    t = "p" if "p" in order else "f"
    sz = {"x": sizes[0], "y": sizes[1], "f": sizes[2], "p": sizes[2], "s": 1}
    img = mk_image(rng, sz, t, order)
    return dict(op="pipe", img=img, hist=hist, t=t, planes=nd > 2, dtype=rng.choice(["float32", "float64", "int32", "int16"]),
                form=rng.choice(["plain", "open", "over", "center"]), name=rng.choice(NAMES), seed=rng.randint(0, 999))


def mk_chunks(rng):
    nx, ny, nz = rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 4)
    n = rng.choice([1, 2, 3, rng.randint(1, nx * ny), nx * ny, nx * ny + 1, ny, nx, 200, max(1, nx * ny - 1)])
    return mk_pipe(rng, [dict(op="split", box=[], n=n), dict(op=rng.choice(["assemble", "assemble1"]), box=[], n=0)], (nx, ny, nz))


def mk_crop(rng):
    s = (rng.randint(1, 8), rng.randint(1, 8), rng.randint(1, 5))
    hist, cur = [], list(s)
    for _ in range(rng.choice([1, 1, 2])):
        b, new = [], []
        for n in cur:
            lo = rng.choice([1, rng.randint(1, n)]); hi = rng.choice([n, rng.randint(lo, n)])
            b += [lo, hi]; new.append(hi - lo + 1)
        hist.append(dict(op="crop", box=b, n=0)); cur = new
    return mk_pipe(rng, hist, s)


# ---------------------------------------------------------------- addressing of axes and pixels
import RMutils.util_RM as URM
import RMtools_3D.make_freq_file as MF
import RMtools_3D.do_RMsynth_3D as S3
import RMtools_1D.do_RMsynth_1D_fromFITS as FF


def run_axis(inp):
    a = inp["ax"]
    h = pf.Header()
    h["SIMPLE"] = True; h["BITPIX"] = -32
    h["NAXIS"] = inp["naxis"]
    un = inp["unit"]
    for i in range(1, inp["naxis"] + 1):
        b = a if i == inp["no"] else dict(n=3 + i, v=17 * i, p=10 * i, s=3)
        h["NAXIS%d" % i] = b["n"]
        h["CRVAL%d" % i] = b["v"] * un; h["CRPIX%d" % i] = b["p"] / 10.0; h["CDELT%d" % i] = b["s"] * un
    dt = inp["dtype"]
    v = URM.fits_make_lin_axis(h, axis=inp["no"] - 1, dtype=dt) if dt else URM.fits_make_lin_axis(h, axis=inp["no"] - 1)
    return {"lin": [fx(x / un, 1) for x in np.asarray(v, "float64")]}


def run_freqfile(inp):
    with Scratch():
        write("c.fits", inp["img"])
        if inp["ctype"]:
            pf.setval("c.fits", "CTYPE%d" % inp["axno"], value=inp["ctype"])
        cli(MF.save_freq_file, ["f", "c.fits", "freq.dat"])
        f = np.atleast_1d(np.loadtxt("freq.dat"))
        h, d = S3.readFitsCube("c.fits", False)
        full = pf.getdata("c.fits")
        n = h["NAXIS"]
        want = np.moveaxis(full, n - inp["axno"], 0)
        # frequency first and the others in their order, degenerate axes or not
        first = d.shape[0] == want.shape[0] and [s for s in d.shape[1:] if s > 1] == [s for s in want.shape[1:] if s > 1] \
            and np.array_equal(np.ravel(d), np.ravel(want))
        return {"freq": [fx(x / 1e5, 1) for x in f], "found": int(S3.find_freq_axis(h)), "first": bool(first)}


def run_pixel(inp):
    """spectrum handed to 1-D synthesis by the FITS front end"""
    got = {}

    def fake(*a, **k):
        got["data"] = k["data"] if "data" in k else a[0]
        raise _Got()

    class _Got(Exception): pass
    with Scratch():
        write("q.fits", inp["q"]); write("u.fits", inp["u"])
        argv = ["f", "q.fits", "u.fits"]
        if inp["sky"]:
            from astropy.wcs import WCS
            with pf.open("q.fits") as hd:
                w = WCS(hd[0].header).celestial
            ra, dec = w.all_pix2world(inp["x"] + inp["dx"] / 100.0, inp["y"] - inp["dx"] / 100.0, 1)
            argv = ["f", "-c", "q.fits", "u.fits", "%.10f" % ra, "%.10f" % dec]
        else:
            argv += [str(inp["x"]), str(inp["y"])]
        if inp["hasi"]:
            write("i.fits", inp["i"])
            argv += ["-I", "i.fits"]
        import RMtools_1D.do_RMsynth_1D as RS
        old, real = getattr(FF, "run_rmsynth", None), RS.run_rmsynth
        if old is not None: FF.run_rmsynth = fake
        RS.run_rmsynth = fake
        try:
            cli(FF.main, argv)
        except _Got:
            pass
        finally:
            if old is not None: FF.run_rmsynth = old
            RS.run_rmsynth = real
        d = [np.asarray(a, "float64") for a in got["data"]]
        if len(d) == 7: f, i, q, u = d[:4]
        else: (f, q, u), i = d[:3], []
        return {"q": fxa(q, 1), "u": fxa(u, 1), "i": fxa(i, 1), "freq": [fx(x / 1e5, 1) for x in f]}


def run_front(inp):
    """the FITS front end of 1-D synthesis, saving its result, next to synthesis of the same pixel's spectra with the same settings"""
    import json
    o = inp["opt"]
    with Scratch():
        ex = {"BUNIT": inp["bunit"]} if inp["bunit"] else {}
        os.makedirs(os.path.dirname(inp["name"]) or ".", exist_ok=True)
        write(inp["name"] + ".fits", inp["q"], extra=ex); write("u.fits", inp["u"], extra=ex)
        if not inp["bunit"]: pf.delval(inp["name"] + ".fits", "BUNIT")
        argv = ["f", inp["name"] + ".fits", "u.fits", str(inp["x"]), str(inp["y"]), "-S"]
        if inp["hasi"]:
            write("i.fits", inp["i"])
            argv += ["-I", "i.fits"]
        fr = MF.get_freq_array(inp["name"] + ".fits")
        lw = np.ptp((299792458.0 / fr) ** 2)
        kw = dict(nBits=64 if o["b"] else 32, verbose=False)
        if o["l"]: kw["phiMax_radm2"] = round(o["l"] / lw, 6); argv += ["-l", repr(kw["phiMax_radm2"])]
        if o["d"]: kw["dPhi_radm2"] = round(o["d"] / 10.0 / lw, 6); argv += ["-d", repr(kw["dPhi_radm2"])]
        if o["s"]: kw["nSamples"] = float(o["s"]); argv += ["-s", str(o["s"])]
        if o["w"]: kw["weightType"] = o["w"]; argv += ["-w", o["w"]]
        if o["o"] != 9: kw["polyOrd"] = o["o"]; argv += ["-o", str(o["o"])]
        for k, a in (("i", "noStokesI"), ("t", "fitRMSF")):
            if o[k]: kw[a] = True; argv += ["-" + k]
        if o["b"]: argv += ["-b"]
        if o["r"]: kw["super_resolution"] = True; argv += ["-r"]
        unit = inp["bunit"] or "Jy/beam"
        if inp["unit"]: unit = inp["unit"]; argv += ["-U", unit]
        img = inp["q"]
        roles = [a["t"] for a in img["ax"]][::-1]
        def spectrum(im, s=1.0):
            a = np.array(im["d"], float).reshape([b["n"] for b in im["ax"]][::-1])
            ix = tuple(slice(None) if t == "f" else {"x": inp["x"] - 1, "y": inp["y"] - 1, "s": 0}[t] for t in roles)
            return (a[ix] * im.get("sc", 1.0)).astype("float32")
        q, u, i = spectrum(inp["q"]), spectrum(inp["u"]), spectrum(inp["i"])
        dx = np.full(fr.shape, 1e-3)
        data = [fr, i, q, u, dx, dx, dx] if inp["hasi"] else [fr, q, u, dx, dx]
        import warnings
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import RMtools_1D.do_RMsynth_1D as RS
            quiet = lambda *a, **k: None
            try:
                md, ad = RS.run_rmsynth(data=data, units=unit, log=quiet, **kw)
                err = ""
            except Exception as e: err = type(e).__name__
            try:
                cli(FF.main, argv)
                got = ""
            except Exception as e: got = type(e).__name__
        if err or got: return {"err": err, "got": got, "a": [], "b": [], "ka": [], "kb": [], "unit": True}
        RS.saveOutput(md, ad, "ref", False)
        def load(p):
            cols = [np.loadtxt(p + e, ndmin=2).T for e in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat")]
            j = json.load(open(p + "_RMsynth.json"))
            ks = sorted(k for k in j if isinstance(j[k], (int, float)))
            return cols, j, ks
        (ca, ja, ka), (cb, jb, kb) = load(inp["name"]), load("ref")
        a, b = [], []
        for x, y in zip(ca, cb):
            for v, w in zip(x, y):
                m = np.nanmax(np.abs(w)) or 1.0
                a.append(fxa(v / m, 1e5)); b.append(fxa(w / m, 1e5))
        for k in [k for k in kb if k in ja]:
            m = abs(jb[k]) if jb[k] and np.isfinite(jb[k]) else 1.0
            a.append([fx(ja[k] / m, 1e5)]); b.append([fx(jb[k] / m, 1e5)])
        return {"err": "", "got": "", "a": a, "b": b, "ka": ka, "kb": kb, "unit": bool(ja["units"] == unit)}


def mk_axis(rng):
    n = rng.choice([1, 2, 3, rng.randint(4, 60), 101, 500])
    s = rng.choice([1, -1]) * rng.choice([1, 2, 5, 37, 1000])
    ax = mkax("o", n, rng.choice([0, 100, -5000, 14000, 900000]), rng.choice([10, 0, 5, 10 * n, 10 * (n // 2 + 1), -37, 10 * n + 200]), s)
    na = rng.randint(1, 4)
    return dict(op="axis", ax=ax, naxis=na, no=rng.randint(1, na), unit=rng.choice([1.0, 1e5, 1e-3, 1e-7, 1e9]), dtype=rng.choice(["", "float64", "float32", "f8"]), tol=1)


FREQORD = {3: [["x", "y", "f"], ["f", "x", "y"], ["x", "f", "y"]],
           4: [["x", "y", "s", "f"], ["x", "y", "f", "s"], ["f", "x", "y", "s"], ["s", "f", "x", "y"], ["f", "s", "x", "y"], ["x", "s", "f", "y"]]}


def mk_order(rng):
    return rng.choice(FREQORD[rng.choice([3, 3, 4])])


def mk_freqfile(rng):
    order = mk_order(rng)
    sz = dict(x=rng.randint(1, 5), y=rng.randint(1, 5), f=rng.choice([2, rng.randint(3, 60)]), s=1)
    img = mk_image(rng, sz, "f", order)
    no = order.index("f") + 1
    return dict(op="freqfile", img=img, ax=img["ax"][no - 1], axno=no, ctype="", tol=1)


def mk_pixel(rng):
    order = mk_order(rng)
    sz = dict(x=rng.randint(1, 6), y=rng.randint(1, 6), f=rng.randint(1, 9), s=1)
    q = mk_image(rng, sz, "f", order)
    def other():
        d = list(q["d"]); rng.shuffle(d)
        return dict(ax=q["ax"], d=[v + 1000 for v in d])
    def holes(im):
        k = rng.sample(range(len(im["d"])), rng.randint(0, len(im["d"]) // 3))
        d = list(im["d"])
        for j in k: d[j] = NAN
        return dict(im, d=d, inf=[j for j in k if rng.random() < .4])
    u, i = other(), other()
    if rng.random() < .5: q, u = holes(q), holes(u)
    return dict(op="pixel", q=q, u=u, i=i, hasi=rng.random() < .4, x=rng.randint(1, sz["x"]), y=rng.randint(1, sz["y"]),
                sky=rng.random() < .35, dx=rng.choice([0, 0, 30, -40]))


def mk_front(rng):
    order = mk_order(rng)
    sz = dict(x=rng.randint(1, 4), y=rng.randint(1, 4), f=rng.randint(6, 12), s=1)
    q = mk_image(rng, sz, "f", order)
    n = len(q["d"])
    q["d"] = [rng.randint(-40, 40) for _ in range(n)]
    def other(v): return dict(ax=q["ax"], d=v)
    opt = dict(l=rng.choice([0, 0, 10, 20]), d=rng.choice([0, 0, 5, 9]), s=rng.choice([0, 0, 5, 8]), w=rng.choice(["", "uniform", "variance"]), o=rng.choice([9, 0, 1]),
               i=rng.random() < .3, t=rng.random() < .2, b=rng.random() < .3, r=rng.random() < .2)
    if not opt["l"] and not opt["d"]: opt["l"] = 15           # keep the grids small
    return dict(op="front", q=q, u=other([rng.randint(-40, 40) for _ in range(n)]), i=other([rng.randint(900, 1100) for _ in range(n)]), hasi=rng.random() < .6,
                x=rng.randint(1, sz["x"]), y=rng.randint(1, sz["y"]), opt=opt, bunit=rng.choice(["", "Jy/beam", "K", "mJy/beam"]), unit=rng.choice(["", "", "Jy", "K"]),
                name=rng.choice(["q", "d.e/q", "q.r", "d/q.v1"]))


def from_layout(rng, c):
    """a frequency-file case and a pixel case for a layout emitted by the model"""
    order = [a["t"] for a in c["ax"]]
    sz = {a["t"]: a["n"] for a in c["ax"]}
    sz.setdefault("s", 1)
    img = mk_image(rng, sz, "f", order)
    no = order.index("f") + 1
    yield dict(op="freqfile", img=img, ax=img["ax"][no - 1], axno=no, ctype="", tol=1)
    e = mk_pixel(rng)
    q = img
    def other():
        d = list(q["d"]); rng.shuffle(d)
        return dict(ax=q["ax"], d=[v + 1000 for v in d])
    e.update(q=q, u=other(), i=other(), x=rng.randint(1, sz["x"]), y=rng.randint(1, sz["y"]))
    yield e
