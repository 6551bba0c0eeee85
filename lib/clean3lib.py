"""RM-CLEAN of FITS cubes: harness-written lattice cubes, or the files of 3-D synthesis."""
import gc, hashlib, multiprocessing, os, shutil
import numpy as np
from cleanlib import S, unit, NOWIN, U, rand_cube, to_c, grids
from cube3dlib import *
import RMtools_3D.do_RMclean_3D as C3
try:
    import schwimmbad
except ImportError:
    schwimmbad = None

FD = 1e-2      # world unit of logged depth axes


def put_lattice(inp):
    """writes FDF and RMSF files of lattice pixels; returns paths without component"""
    from cubelib import header
    os.makedirs(inp["dir"] or ".", exist_ok=True)
    pre = (inp["dir"] + "/" if inp["dir"] else "") + inp["prefix"]
    pre2 = (inp["dir2"] + "/" if inp["dir2"] else "") + inp["prefix"]
    if inp["dir2"]: os.makedirs(inp["dir2"], exist_ok=True)
    nx, ny = inp["nx"], inp["ny"]
    def cube(key, ax):
        a = np.array([to_c(p[key], "complex128", unit(inp) if key == "dirty" else S) for p in inp["pix"]])          # [p, k]
        a = a.T.reshape((-1, ny, nx))
        roles = ["p", "y", "x"]
        t = np.transpose(a, [roles.index(b["t"]) for b in ax[::-1] if b["t"] in "pyx"])
        return t.reshape([b["n"] for b in ax][::-1])
    for name, key, ax in (("FDF", "dirty", inp["ax"]), ("RMSF", "r", inp["ax2"])):
        v = cube(key, ax)
        h = header(ax)
        h["LAMSQ0"] = 0.05
        if inp.get("bare"): del h["CTYPE%d" % len(ax)]
        for c, w in (("real", v.real), ("im", v.imag), ("tot", np.abs(v))):
            pf.writeto((pre if name == "FDF" else pre2) + name + "_" + c + ("_dirty" if name == "FDF" else "") + ".fits", w.astype("float32"), h)
    w = np.array([p["f"] * inp["dphi"] for p in inp["pix"]]).reshape(ny, nx)
    ax = [dict(a, n=1, t="o") if a["t"] == "p" else a for a in inp["ax2"]]
    if inp["map2d"]: ax = [a for a in ax if a["t"] in "xy"]
    pf.writeto(pre2 + "RMSF_FWHM.fits", w.reshape([a["n"] for a in ax][::-1]).astype("float32"), header(ax))
    return pre, pre2


def name_depth(no):
    """gives an unnamed last axis its name"""
    for root, _, fs in os.walk("."):
        for f in fs:
            if f.endswith(".fits"):
                with pf.open(os.path.join(root, f), mode="update") as hl:
                    for u in hl:
                        if u.header["NAXIS"] == no and "CTYPE%d" % no not in u.header: u.header["CTYPE%d" % no] = "FDEP"


def stack(path_re, path_im):
    """[p, k] complex array of a cube, and its header"""
    h = pf.getheader(path_re)
    a = pf.getdata(path_re).astype("float32") + 1j * pf.getdata(path_im).astype("float32")
    roles = [b["t"] for b in axes_of(h)][::-1]
    for i in range(len(roles) - 1, -1, -1):
        if roles[i] not in "pxy":
            a = np.take(a, 0, axis=i); roles.pop(i)
    a = np.transpose(a, [roles.index(r) for r in "pyx"])
    no = [b["t"] for b in axes_of(h)].index("p")
    return a.reshape(a.shape[0], -1).T, h, U.fits_make_lin_axis(h, axis=no, dtype="float32"), a.shape[2], a.shape[1]


def map_of(path):
    h = pf.getheader(path)
    a = pf.getdata(path)
    roles = [b["t"] for b in axes_of(h)][::-1]
    return np.asarray(a).reshape(a.shape[roles.index("y")], a.shape[roles.index("x")]).ravel()


def digest():
    out = {}
    for r, _, fs in os.walk("."):
        for f in fs:
            out[os.path.join(r, f)] = hashlib.md5(open(os.path.join(r, f), "rb").read()).hexdigest()
    return out


def call_clean3(inp, pre, pre2):
    argv = ["c", pre + "FDF_%s_dirty.fits" % inp["comp"], pre2 + "RMSF_%s.fits" % inp["comp2"], "-c", repr(inp["cutoff"] / unit(inp)),
            "-n", inp["limit"], "-g", repr(inp["gain"] / S)]
    if inp["window"] != NOWIN: argv += ["-w", repr(inp["window"] / unit(inp))]
    if inp["ncores"]: argv += ["--ncores", inp["ncores"]]
    if inp["chunk"]: argv += ["--chunk", inp["chunk"]]
    if inp["oprefix"]: argv += ["-o", inp["oprefix"]]
    if inp["multi"]: argv += ["-f"]
    cli(C3.main, argv)
    gc.collect()
    for c in multiprocessing.active_children():
        c.terminate()
    return (os.path.dirname(pre) + "/" if os.path.dirname(pre) else "") + inp["oprefix"]


def run_clean3(inp):
    with Scratch("c3"):
        if inp["src"] == "lattice":
            pre, pre2 = put_lattice(inp)
            fd = FD
        else:
            s = inp["synth"]
            pre, argv, uphi = write_inputs(s)
            cli(S3.main, argv)
            if s.get("spell") == 5: name_sky(s)
            pre2, fd = pre, uphi / 100
        bef = digest()
        o = call_clean3(inp, pre, pre2)
        aft = digest()
        kept = all(aft.get(k) == v for k, v in bef.items())
        if inp.get("bare"): name_depth(len(inp["ax"]))
        d, h, phi, nx, ny = stack(pre + "FDF_real_dirty.fits", pre + "FDF_im_dirty.fits")
        r, h2, phi2, nx2, ny2 = stack(pre2 + "RMSF_real.fits", pre2 + "RMSF_im.fits")
        w = map_of(pre2 + "RMSF_FWHM.fits")
        solo = []
        kw = {"window": np.nan if inp["window"] == NOWIN else inp["window"] / unit(inp)}
        for p in range(nx * ny):
            res = U.do_rmclean_hogbom(d[p].copy(), phi, r[p].copy(), phi2, w[p], inp["cutoff"] / unit(inp), maxIter=inp["limit"], gain=inp["gain"] / S,
                                      nBits=32, log=lambda *a, **k: None, **kw)
            solo.append(dict(clean=[[fx(v.real, unit(inp)), fx(v.imag, unit(inp))] for v in np.ravel(res.cleanFDF)],
                             cc=[[fx(v.real, unit(inp)), fx(v.imag, unit(inp))] for v in np.ravel(res.ccArr)], iter=int(np.ravel(res.iterCountArr)[0])))
        out = dict(solo=solo, kept=bool(kept), dax=axes_of(h, fd))
        for key, n in (("c", "FDF_clean"), ("cc", "FDF_CC")):
            for e, (a, b) in enumerate((("re", "_real"), ("im", "_im"), ("tot", "_tot"))):
                f = o + n + (".fits" if inp["multi"] else b + ".fits")
                out[key + a] = read(f, unit(inp), e if inp["multi"] else 0, fd)
        out["nit"] = read(o + "CLEAN_nIter.fits", 1, 0, fd)
        return out


def depth_ax(n, start, dphi, rng):
    """axis whose first pixel is at start*dphi"""
    s = int(round(dphi / FD))
    p = rng.choice([10, 10, 10 * n, 30, -20])
    return dict(t="p", n=n, v=start * s + (p - 10) // 10 * s, p=p, s=s)


DORD = [[t if t != "f" else "p" for t in o] for k in FREQORD for o in FREQORD[k]]
CDIRS = ["", "", "out", "my_real_im_tot.d", "a/b_tot", "x_im_.d"]
CPREF = ["", "", "p_", "field_total_", "im_real_", "a_tot_b_", "FDF_real_x_"]


def common(rng):
    return dict(comp=rng.choice(["real", "im", "tot"]), comp2=rng.choice(["real", "im", "tot"]), ncores=rng.choice([0, 0, 0, 0, 2, 3, 1]),
                chunk=rng.choice([0, 0, 0, 1, 2, 5]), oprefix=rng.choice(["", "q_", "cl_tot_"]), multi=rng.random() < .35,
                gain=rng.choice([10000, 30000, 50000]), limit=rng.choice([0, 1, 6, 15, 30]))


def mk_clean3(rng, order=None, sizes=None):
    order = order or rng.choice(DORD)
    nx, ny = (sizes["x"], sizes["y"]) if sizes else (rng.randint(1, 4), rng.randint(1, 4))
    c = rand_cube(rng, [(ny, nx)])
    n, n2 = len(c["pix"][0]["dirty"]), len(c["pix"][0]["r"])
    pad = (n2 - n) // 2
    sz = dict(x=nx, y=ny, f=n, s=1)
    base = mk_image(rng, dict(sz, p=n), "p", order, [])["ax"]
    ax = [depth_ax(n, c["off"], c["dphi"], rng) if a["t"] == "p" else a for a in base]
    ax2 = [depth_ax(n2, c["off"] - pad, c["dphi"], rng) if a["t"] == "p" else a for a in base]
    inp = dict(op="clean3", src="lattice", pix=c["pix"], c=c["c"], nx=nx, ny=ny, ax=ax, ax2=ax2, cutoff=c["cutoff"], window=c["window"],
               dphi=c["dphi"], dir=rng.choice(CDIRS), prefix=rng.choice(CPREF), dir2="", map2d=rng.random() < .2)
    inp["pow"] = c["pow"]
    inp["bare"] = int(ax[-1]["t"] == "p" and rng.random() < .3)
    inp["dir2"] = inp["dir"] if rng.random() < .8 else "rm_im.d"
    inp.update(common(rng))
    return inp


def mk_clean3_synth(rng, order=None, sizes=None):
    s = mk_synth3(rng, order, sizes)
    s.update(multi=False, rmsf=True)
    q = spectra(s["q"])
    inp = dict(op="clean3", src="synth", pix=[], c=1, nx=q.shape[2], ny=q.shape[1], synth=s, dphi=1.0,
               cutoff=rng.choice([20000, 100000, 200000, 400000]), dir2="", map2d=False)
    inp["pow"] = -s.get("pow", 0)
    inp["window"] = NOWIN if rng.random() < .5 else inp["cutoff"] // 2
    inp.update(common(rng))
    return inp
