"""The RMSF calculator, run from its command line; what it prints, in the units of spec/RmsfCalc.tla."""
import contextlib, io, math, os, re, shutil, tempfile, warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vlib import fx, NAN
from synthlib import UL, unit_phi
from cubelib import cli
import RMtools_1D.calculate_RMSF as K
from RMutils.util_RM import get_rmsf_planes

C = 299792458.0
NUM = r"([-+0-9.eE]+|nan|inf)"


def call(argv):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cli(K.main, ["prog"] + argv)
    finally:
        plt.close("all")
    return out.getvalue()


def grab(s, head):
    m = re.search(re.escape(head) + r"\s*" + NUM, s)
    return float(m.group(1)) if m else float("nan")


def files(inp, d, f, unit):
    """the command line that describes the sampling"""
    w = [v * unit for v in inp["w"]]
    fr = [repr(float(x)) for x in f]
    if inp.get("whole"): fr = [str(int(round(x))) for x in f]
    ws = [str(int(v)) if inp.get("whole") and unit == 1.0 else repr(float(v)) for v in w]
    eq = len(set(inp["w"])) == 1
    with open(d + "/f.dat", "w") as fh:
        fh.write("# frequencies\n")
        for i, x in enumerate(fr):
            if inp["cols"] == 1: fh.write(x + "\n")
            else: fh.write(x + " " + (ws[i] if inp["cols"] == 2 else "7") + "\n")     # 3: a column that the weight file overrides
    a = [d + "/f.dat"]
    if inp["cols"] == 3 or (inp["cols"] == 1 and not eq):
        with open(d + "/w.dat", "w") as fh: fh.write("".join(x + "\n" for x in ws))
        a.append(d + "/w.dat")
    return a


def finish(s, lam2, w, phi, inp, side, plot):
    """the width that the library measures for this sampling; NaN when rounding of the inputs decides it"""
    def once(x, v):
        return float(get_rmsf_planes(x, np.array(phi), weightArr=v, fitRMSF=True, fitRMSFreal=bool(inp["super"]), lam0Sq_m2=0 if inp["super"] else None).fwhmRMSFArr)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, v = np.array(lam2, float), np.array(w, float)
        own = once(x, v)
        g = np.random.default_rng(3)
        near = [once(x * (1 + 1e-9 * g.standard_normal(len(x))), v * (1 + 1e-9 * g.standard_normal(len(v)))) for _ in range(3)]
    if not (np.isfinite(own) and own < phi[-1] - phi[0] and all(abs(o - own) <= 1e-4 * own for o in near)): return float("nan")
    return own

def run_lat(inp):
    d = tempfile.mkdtemp(prefix="rmsf")
    try:
        lam2 = np.array(inp["lam"], float) * UL
        f = C / np.sqrt(lam2)
        a = files(inp, d, f, inp["wunit"])
        rng = lam2.max() - lam2.min()
        dphi = .2 * math.sqrt(3.0) / rng if inp["def"] else unit_phi(inp["s"], 1)
        if not inp["def"]: a += ["-m", repr(2 * inp["half"] * dphi), "-d", repr(dphi)]
        if inp["super"]: a += ["-r"]
        if inp["save"]: a += ["-s", d + "/p.png"]
        if inp["name"]: a += ["-n", "a plot"]
        if inp["also"]: a += ["-f", "1e9", "1.1e9", "1e6"]
        s = call(a)
        phi = np.arange(-inp["half"], inp["half"] + 1) * dphi
        own = finish(s, lam2, inp["w"], phi, inp, True, None)
        m = re.search(r"First sidelobe FD and amplitude:\s*" + NUM + r" rad m\^-2\s*\n\s*" + NUM + " %", s)
        u = UL * 1e4
        return dict(exc="", fwhm0=fx(grab(s, "Theoretical (unweighted) FWHM:") * u, 1), scale=fx(grab(s, "Theoretical largest FD scale probed:") * u, 1), depth=fx(grab(s, "Theoretical maximum FD*:") * u, 1),
                    fwhm=fx(grab(s, "Measured FWHM:") / dphi, 1000), own=fx(own / dphi, 1000), side=[fx(float(m.group(1)) / dphi, 1000), fx(float(m.group(2)), 100)] if m else [],
                    plot=bool(not inp["save"] or os.path.getsize(d + "/p.png") > 0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_mhz(inp):
    d = tempfile.mkdtemp(prefix="rmsf")
    try:
        f = np.array(inp["f"], float) * 1e6
        lam2 = (C / f) ** 2
        if inp["how"] == "gen": a = ["-f", repr(f[0]), repr(f[-1] + .6 * (f[1] - f[0])) if inp["slack"] else repr(f[-1] + f[1] - f[0]), repr(f[1] - f[0])]
        else: a = files(inp, d, f, inp["wunit"])
        if inp["super"]: a += ["-r"]
        if inp["save"]: a += ["-s", d + "/p.png"]
        s = call(a)
        dphi = .2 * math.sqrt(3.0) / (lam2.max() - lam2.min())
        own = finish(s, lam2, inp["w"], np.arange(-50, 51) * dphi, inp, False, None)
        return dict(exc="", fwhm0=fx(grab(s, "Theoretical (unweighted) FWHM:"), 100), scale=fx(grab(s, "Theoretical largest FD scale probed:"), 100), depth=fx(grab(s, "Theoretical maximum FD*:"), 1),
                    fwhm=fx(grab(s, "Measured FWHM:") / dphi, 1000), own=fx(own / dphi, 1000), plot=bool(not inp["save"] or os.path.getsize(d + "/p.png") > 0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_bad(inp):
    d = tempfile.mkdtemp(prefix="rmsf")
    try:
        a = []
        if inp["why"] == "length":
            open(d + "/f.dat", "w").write("".join("%r\n" % (1e9 + 1e6 * i) for i in range(inp["n"])))
            open(d + "/w.dat", "w").write("1.0\n" * inp["m"])
            a = [d + "/f.dat", d + "/w.dat"]
        out = io.StringIO(); exc = ""
        try:
            with contextlib.redirect_stdout(out): cli(K.main, ["prog"] + a)
        except BaseException as e: exc = type(e).__name__
        plt.close("all")
        return dict(exc="", refused=exc, said="RMSF PROPERTIES" in out.getvalue())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(inp):
    return {"lat": run_lat, "mhz": run_mhz, "bad": run_bad}[inp["op"]](inp)


def fold(rng, k):
    """channels listed outwards from one of them, so that steps of either sign follow one another"""
    m = rng.randint(1, len(k) - 1)
    return list(k[m:]) + list(k[:m][::-1])


def lat_case(rng, c=None):
    n = rng.choice([3, 5, 9, 20])
    if c: lam, w = list(c["lam"]), list(c["w"])
    else:
        lam = sorted(rng.sample(range(15, 130), n)) if rng.random() < .5 else [rng.randint(15, 50) + i * rng.choice([1, 2, 3]) for i in range(n)]
        if len(set(lam)) < len(lam): lam = list(range(30, 30 + n))
        w = [rng.choice([1, 1, rng.randint(0, 9)]) for _ in lam] if rng.random() < .6 else [1] * len(lam)
        if sum(v > 0 for v in w) < 2: w = [1] * len(lam)
    k = sorted(range(len(lam)), key=lambda i: lam[i], reverse=rng.random() < .6)
    if rng.random() < .15: k = fold(rng, k)
    lam, w = [lam[i] for i in k], [w[i] for i in k]
    de = int(rng.random() < .3)
    return dict(op="lat", lam=lam, w=w, s=rng.choice([1, 2, 3, 5]), half=50 if de else rng.randint(8, 60), cols=rng.choice([1, 2, 3]), wunit=rng.choice([1.0, 1e-3, 2e6]), **{"def": de, "super": int(rng.random() < .2)}, save=int(rng.random() < .12), name=int(rng.random() < .3), also=int(rng.random() < .2))


def mhz_case(rng):
    n = rng.choice([4, 10, 60]); step = rng.choice([5, 10, 25]); a = rng.choice([rng.randint(300, 1500), rng.randint(2900, 9000)])
    f = [a + i * step for i in range(n)]
    how = rng.choice(["gen", "file", "file"])
    w = [1] * n if how == "gen" or rng.random() < .4 else [rng.randint(1, 5) for _ in f]
    if how == "file" and rng.random() < .5: f.reverse()
    if how == "file" and rng.random() < .2: f = fold(rng, f)
    return dict(op="mhz", how=how, f=f, w=w, whole=int(rng.random() < .7), cols=rng.choice([1, 2, 3]), wunit=rng.choice([1.0, 1.0, .25]), slack=int(rng.random() < .5), super=int(rng.random() < .2), save=int(rng.random() < .12))


def bad_case(rng):
    n = rng.randint(3, 9)
    return dict(op="bad", why=rng.choice(["length", "length", "none"]), n=n, m=n + rng.choice([-1, 1, 2]))
