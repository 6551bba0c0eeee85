"""One-dimensional synthesis -> files -> CLEAN: sessions and hand-overs."""
import json, math, os, shutil, sys, tempfile
import numpy as np
from vlib import fx, fxa, cxa, NAN
import synth1dlib as L
from synth1dlib import S1, quiet, C, UL
import RMtools_1D.do_RMclean_1D as C1

def sci(v):
    try:
        x = float(v)
    except (TypeError, ValueError):
        return [0, 0, str(v)]
    if not math.isfinite(x): return [0, 0, repr(x)]
    if x == 0: return [0, 0, "0"]
    m, e = ("%.5e" % x).split("e")
    return [int(m.replace(".", "")), int(e), ""]


def meas(d):
    return [[k] + sci(d[k]) for k in sorted(d)]


def datfile(p):
    d = {}
    for line in open(p):
        k, v = line.rstrip("\n").split("=", 1)
        d[k] = v
    return meas(d)


def table(p):
    return np.loadtxt(p, unpack=True, ndmin=2)


def spectrum(s):
    """data columns of a small spectrum"""
    lam = np.array(s["lam"], float)
    f = C / np.sqrt(lam * UL)
    n = len(f)
    ang = np.radians(2.0 * s["ang"]) + 2 * s["rm"] * lam * UL
    noise = np.array(s["noise"]) / 1000.0
    q = s["p"] / 100.0 * np.cos(ang) + noise[:n] * s["sig"] / 100.0
    u = s["p"] / 100.0 * np.sin(ang) + noise[n:2 * n] * s["sig"] / 100.0
    sg = np.full(n, s["sig"] / 100.0)
    I = np.full(n, s["i0"] / 10.0 * 10.0 ** s.get("unit", 0))
    dt = "float%d" % s["nbits"]
    return [a.astype(dt) for a in (f, I, I * q, I * u, I * sg, I * sg, I * sg)]


def grid(s):
    R = (max(s["lam"]) - min(s["lam"])) * UL
    step = 3.8 / R / 6
    return step


def synth(s):
    step = grid(s)
    return S1.run_rmsynth(spectrum(s), polyOrd=0, phiMax_radm2=step * s["half"], dPhi_radm2=step, nBits=s["nbits"], log=quiet)


FILES = ["_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.json"]


def read(prefix, nbits):
    return C1.readFiles(*[prefix + f for f in FILES], nBits=nbits)


def fp_syn(md, ad):
    a = np.asarray(ad["dirtyFDF"]).astype(complex)
    return [fx(float(md["lam0Sq_m2"]), 1e5), fx(float(md["dFDFth"]), 1e5), len(a), len(ad["RMSFArr"])] + \
        [x for z in a[::5] for x in (fx(z.real, 1e4), fx(z.imag, 1e4))] + [fx(z.real, 1e4) for z in np.asarray(ad["RMSFArr"])[::7]] + \
        fxa(np.asarray(ad["freqArr_Hz"], float)[:2] / 1e9, 1e5)


def fp_cl(phi, clean, cc, md):
    return [fx(float(md["ampPeakPIfit"]), 1e4), fx(float(md["nIter"]), 1), len(phi)] + \
        [x for z in clean[::5] for x in (fx(z.real, 1e4), fx(z.imag, 1e4))] + [fx(abs(z), 1e4) for z in cc[::3]]


def cli(mod, argv):
    old = sys.argv
    sys.argv = argv
    try:
        mod.main()
    finally:
        sys.argv = old
        L.matplotlib.pyplot.close("all") if hasattr(L.matplotlib, "pyplot") else None


def run_session(inp):
    d = tempfile.mkdtemp(prefix="verif_sess_")
    try:
        specs = inp["spectra"]
        pre = {1: os.path.join(d, inp["names"][0]), 2: os.path.join(d, inp["names"][1])}
        for p in (1, 2):
            os.makedirs(os.path.dirname(pre[p]), exist_ok=True)
            np.savetxt(pre[p] + ".dat", np.array(spectrum(specs[p - 1])).T)
        cut, lim, gain = inp["cut"] / 100.0, inp["limit"], inp["gain"] / 100.0
        ref = {"syn": [], "cl": []}
        for s in specs:
            md, ad = synth(s); ref["syn"].append(fp_syn(md, ad))
            mc, ac = C1.run_rmclean(md, ad, cut, maxIter=lim, gain=gain, nBits=32)
            ref["cl"].append(fp_cl(ac["phiArr_radm2"], ac["cleanFDF"], ac["ccArr"], mc))
        mem = cl = None
        obs = []
        for op, a in inp["ops"]:
            if op == "synth": mem = synth(specs[a - 1])
            elif op == "save": S1.saveOutput(mem[0], mem[1], pre[a], False)
            elif op == "clean": cl = C1.run_rmclean(mem[0], mem[1], cut, maxIter=lim, gain=gain, nBits=32)
            elif op == "cleanfile":
                m, A = read(pre[a], 32)
                cl = C1.run_rmclean(m, A, cut, maxIter=lim, gain=gain, nBits=32)
            elif op == "saveclean": C1.saveOutput(cl[0], cl[1], prefixOut=pre[a])
            elif op == "clisynth":
                step = grid(specs[a - 1])
                cli(S1, ["rmsynth1d", pre[a] + ".dat", "-S", "-o", "0", "-l", repr(step * specs[a - 1]["half"]), "-d", repr(step)])
            elif op == "cliclean":
                cli(C1, ["rmclean1d", pre[a] + ".dat", "-S", "-c", repr(cut), "-n", str(lim), "-g", repr(gain)])
            o = {"mem": fp_syn(*mem) if mem else [], "cl": fp_cl(cl[1]["phiArr_radm2"], cl[1]["cleanFDF"], cl[1]["ccArr"], cl[0]) if cl else [], "syn": [], "clf": []}
            for p in (1, 2):
                o["syn"].append(fp_syn(*read(pre[p], 32)) if os.path.exists(pre[p] + "_RMsynth.json") else [])
                if os.path.exists(pre[p] + "_RMclean.json"):
                    t, m = table(pre[p] + "_FDFclean.dat"), table(pre[p] + "_FDFmodel.dat")
                    o["clf"].append(fp_cl(t[0], t[1] + 1j * t[2], m[1] + 1j * m[2], json.load(open(pre[p] + "_RMclean.json"))))
                else: o["clf"].append([])
            obs.append(o)
        return {"ref": ref, "obs": obs}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_handover(inp):
    s = inp["s"]
    d = tempfile.mkdtemp(prefix="verif_hand_")
    try:
        md, ad = synth(s)
        nb = s["nbits"]
        pre = os.path.join(d, inp["name"]); os.makedirs(os.path.dirname(pre), exist_ok=True)
        mmeas = meas(md)
        S1.saveOutput(md, ad, pre, False)
        rm, ra = read(pre, nb)
        amp = np.abs(ad["dirtyFDF"]); sc = 1.0 / float(amp.max())
        n = float(md["dFDFth"])
        lim, gain = inp["limit"], inp["gain"] / 100.0
        top = float(amp.max())
        def par(c): return None if c == 0 else (c / 100.0 if c < 0 else c / 100.0 * top)
        cut, win = par(inp["cut"]), par(inp["win"])
        ab = lambda c: None if c is None else (-c * n if c < 0 else c)
        bef = {k: np.array(v) for k, v in ad.items()}; befm = dict(md)
        def run(m, a, c, w, lim):
            return C1.run_rmclean(m, a, c, maxIter=lim, gain=gain, nBits=nb, window=w)
        mc, ac = run(md, ad, cut, win, lim)
        un = all(np.array_equal(bef[k], ad[k]) for k in bef) and all(befm[k] == md[k] or befm[k] != befm[k] for k in befm)
        mf, af = run(rm, ra, cut, win, lim)
        ma, aa = run(md, ad, ab(cut), ab(win), lim)
        it = int(ac["iterCountArr"])
        m1, a1 = run(md, ad, cut, None, 1)
        prev = run(md, ad, cut, win, max(0, it - 1))[1]
        nowin = run(md, ad, cut, None, lim)[1]
        phi = np.asarray(ad["phiArr_radm2"], float); step = phi[1] - phi[0]
        fw = float(md["fwhmRMSF"])
        comp = phi[np.abs(nowin["ccArr"]) > 0]
        near = [int(any(abs(x - c) <= fw / 2 - 1.01 * step for c in comp)) for x in phi]
        wmeas = meas(mc)
        C1.saveOutput(dict(mc), ac, prefixOut=pre)
        wt, wm = table(pre + "_FDFclean.dat"), table(pre + "_FDFmodel.dat")
        cx = lambda a: cxa(np.asarray(a).astype(complex) * sc, 1e5)
        wjson, wdat = json.load(open(pre + "_RMclean.json")), datfile(pre + "_RMclean.dat")
        # the command-line tool on the synthesis files (single precision)
        tool = []
        if nb == 32:
            np.savetxt(pre + ".dat", np.array(spectrum(s)).T)
            argv = ["rmclean1d", pre + ".dat", "-S", "-n", str(lim)]
            if gain != 0.1: argv += ["-g", repr(gain)]
            if cut != -3.0: argv += ["-c", repr(cut)]
            if win is not None: argv += ["-w", repr(win)]
            cli(C1, argv)
            tt, tm = table(pre + "_FDFclean.dat"), table(pre + "_FDFmodel.dat")
            tool = [tt[1] + 1j * tt[2], tm[1] + 1j * tm[2], int(json.load(open(pre + "_RMclean.json"))["nIter"])]
        camp = np.abs(ac["cleanFDF"]); cs = 20000.0 / camp.max()
        phs = lambda a: fxa(np.asarray(a, float) / step, 1e5)
        ratio = float(mc["dFDFcorMAD"]) / n
        obs = [(mc["dPhiObserved_rm2"], mc["dPhiPeakPIfit_rm2"]), (mc["dPolAngleFitObserved_deg"], mc["dPolAngleFit_deg"]),
               (mc["dPolAngleFit0Observed_deg"], mc["dPolAngle0Fit_deg"])]
        obs = [[fx(a / b / ratio if b else np.nan, 1e5), 100000 if np.isfinite(b) else NAN] for a, b in obs] + \
              [[fx(mc["dAmpObserved"] / n, 1e5), fx(ratio, 1e5)], [fx(mc["dAmpPeakPIfit"] / n, 1e5), 100000]]
        nphi = len(phi)
        ok = all(np.shape(x) == (nphi,) for x in (ac["cleanFDF"], ac["ccArr"], ac["residFDF"], ra["dirtyFDF"])) and np.shape(ra["RMSFArr"]) == np.shape(ad["RMSFArr"])
        return {"shape": bool(ok), "untouched": bool(un), "mfdf": cx(ad["dirtyFDF"]), "rfdf": cx(ra["dirtyFDF"]), "mphi": phs(phi), "rphi": phs(ra["phiArr_radm2"]),
                "mrmsf": cxa(np.asarray(ad["RMSFArr"]).astype(complex), 1e5), "rrmsf": cxa(np.asarray(ra["RMSFArr"]).astype(complex), 1e5),
                "mphi2": phs(ad["phi2Arr_radm2"]), "rphi2": phs(ra["phi2Arr_radm2"]), "mwt": fxa(np.asarray(ad["weightArr"], float) / np.max(ad["weightArr"]), 1e5),
                "rwt": fxa(np.asarray(ra["weightArr"], float) / np.max(ad["weightArr"]), 1e5), "mfreq": fxa(np.asarray(ad["freqArr_Hz"], float) / 1e9, 1e6),
                "rfreq": fxa(np.asarray(ra["freqArr_Hz"], float) / 1e9, 1e6), "mmeas": mmeas, "rmeas": meas(rm), "dat": datfile(pre + "_RMsynth.dat"),
                "clean": cx(ac["cleanFDF"]), "cc": cx(ac["ccArr"]), "res": cx(ac["residFDF"]), "iter": it,
                "fclean": cx(af["cleanFDF"]), "fcc": cx(af["ccArr"]), "fres": cx(af["residFDF"]), "fiter": int(af["iterCountArr"]),
                "aclean": cx(aa["cleanFDF"]), "acc": cx(aa["ccArr"]), "aiter": int(aa["iterCountArr"]),
                "cutused": fx(float(mc["cleanCutoff"]) / n, 1000) if cut < 0 else fx(float(mc["cleanCutoff"]) * sc, 1e5), "cutgiven": 0 if cut < 0 else fx(cut * sc, 1e5),
                "cut5": fx(ab(cut) * sc, 1e5), "win5": fx((ab(win) or 0) * sc, 1e5), "resamp": [fx(abs(z) * sc, 1e5) for z in ac["residFDF"]],
                "prevamp": [fx(abs(z) * sc, 1e5) for z in prev["residFDF"]], "near": near, "iter1": int(a1["iterCountArr"]),
                "cc1": fx(np.abs(a1["ccArr"]).max() * sc, 1e5), "top": fx(top * sc, 1e5), "niter": int(mc["nIter"]),
                "camp": [int(round(v * cs)) for v in camp], "peak": fx(float(mc["phiPeakPIfit_rm2"]) / step, 1e5), "pamp": fx(float(mc["ampPeakPIfit"]) * cs, 1000),
                "obs": obs, "wclean": cx(wt[1] + 1j * wt[2]), "wcc": cx(wm[1] + 1j * wm[2]), "wphi": phs(wt[0]),
                "wmeas": wmeas, "wjson": meas(wjson), "wdat": wdat,
                "tclean": cx(tool[0]) if tool else [], "tcc": cx(tool[1]) if tool else [], "titer": tool[2] if tool else 0,
                "aphi": phs(ac["phiArr_radm2"]), "afreq": fxa(np.asarray(ac["freqArr_Hz"], float) / 1e9, 1e6)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(inp):
    return {"session": run_session, "handover": run_handover}[inp["op"]](inp)


NAMES = [("a", "b"), ("src.1", "src.2"), ("x/src", "y/src"), ("FDFdirty_src", "src_RMSF"), ("run.dat/src", "run.dat/src.dat"), ("a", "a_RMSF_b"), ("s_w", "s")]


def mk_spec(rng, nbits=32):
    n = rng.choice([12, 20, 32])
    lam = sorted(rng.sample(range(30, 30 + 3 * n), n), reverse=rng.random() < .7)
    R = (max(lam) - min(lam)) * UL
    half = rng.choice([25, 30, 42])
    return dict(lam=lam, ang=rng.randint(0, 179), rm=rng.uniform(-2.5, 2.5) * 3.8 / R, p=rng.choice([2, 10, 40]), sig=rng.choice([1, 3, 10]),
                noise=[int(rng.gauss(0, 1000)) for _ in range(2 * n)], i0=rng.choice([1, 10, 250]), half=half, nbits=nbits)


def mk_session(rng, ops):
    return dict(op="session", ops=ops, spectra=[mk_spec(rng), mk_spec(rng)], names=list(rng.choice(NAMES)), cut=rng.choice([-300, -500, -100]),
                limit=rng.choice([5, 60]), gain=rng.choice([10, 30]))


def mk_handover(rng):
    s = mk_spec(rng, rng.choice([32, 64]))
    s["unit"] = rng.choice([0, 0, -7, -4, 5])
    cut = rng.choice([-100, -300, -450, 5, 30, 60])
    win = rng.choice([0, 0, 0, -50, -150, 2, 20])
    return dict(op="handover", s=s, name=rng.choice(["a", "x/src.1", "src_RMSF"]), cut=cut, win=win, limit=rng.choice([3, 40, 300]), gain=rng.choice([5, 10, 30]),
                half=s["half"], tol=30)
