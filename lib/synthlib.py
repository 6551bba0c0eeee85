"""Lattice instances of RM synthesis and their execution on RMutils.util_RM."""
import math
import numpy as np
from vlib import fx, cxa, NAN

import RMutils.util_RM  # before the workers fork

UL = 5e-4            # m^2 per lattice unit of lambda^2


def unit_phi(g, den, ul=UL):
    return g * math.pi * den / (720.0 * ul)


def unit_lam(inp):
    return UL * 2.0 ** inp.get("lpow", 0)


def weff(w, q, u):
    out = []
    for j in range(len(w)):
        live = any(q[p][j] != NAN and u[p][j] != NAN for p in range(len(q)))
        out.append(w[j] if (w[j] != NAN and live) else 0)
    return out


def den_of(inp, we):
    if len(inp["l0"]) == 2:
        return inp["l0"][1]
    return sum(we) or 1


def arr(v, dt):
    return np.array([[np.nan if x == NAN else float(x) for x in r] for r in v], dtype=dt)


def physics(inp, we):
    den = den_of(inp, we)
    ul = unit_lam(inp)
    uphi = unit_phi(inp["g"], den, ul)
    lam = np.array(inp["lam"], dtype="float64") * ul
    phi = np.array(inp["phi"], dtype="float64") * uphi
    w = None if inp.get("wnone") else np.array([np.nan if x == NAN else float(x) for x in inp["w"]]) * 2.0 ** inp.get("wpow", 0)
    l0 = None if not inp["l0"] else inp["l0"][0] / inp["l0"][1] * ul
    return den, uphi, lam, phi, w, l0


def layout_shape(n, npix, kind):
    if kind == "2d":
        return (n, npix)
    if kind == "1d":
        return (n,)
    ny, nx = kind
    return (n, ny, nx)


def call_synth(inp, q, u, we, shape_tail):
    """q,u: float arrays [pix][chan] -> (fdf [pix][k] complex, lam0 logged, shape ok, untouched)"""
    from RMutils.util_RM import do_rmsynth_planes
    den, uphi, lam, phi, w, l0 = physics(inp, we)
    n = len(lam)
    dt = "float%d" % inp.get("nbits", 64)
    pick, rep = None, inp.get("rep", 1)
    if inp.get("pad"):                               # the depths looked at lie somewhere in a long list
        r = np.random.RandomState(inp["pad"])
        k = len(phi)
        pick = np.sort(r.choice(inp["pad"], k, replace=False))
        full = np.sort(r.uniform(-40, 40, inp["pad"])) * uphi
        full[pick] = phi; phi = full
    if rep > 1:                                      # many copies of the pixels
        q, u = np.tile(q, (rep, 1)), np.tile(u, (rep, 1))
        shape_tail = (q.shape[0],) if len(shape_tail) < 2 else (shape_tail[0] * rep,) + tuple(shape_tail[1:])
    unit = 2.0 ** inp.get("pow", 0)                  # the sum is linear in the data, in whatever unit they come
    q, u = q * unit, u * unit
    dq = np.ascontiguousarray(q.T.astype(dt).reshape((n,) + shape_tail))
    du = np.ascontiguousarray(u.T.astype(dt).reshape((n,) + shape_tail))
    if inp.get("fortran"):
        dq, du = np.asfortranarray(dq), np.asfortranarray(du)
    args = [dq, du, lam, phi] + ([w] if w is not None else [])
    before = [a.copy() for a in args]
    kw = {}
    if w is not None:
        kw["weightArr"] = w
    if l0 is not None:
        kw["lam0Sq_m2"] = l0
    res = do_rmsynth_planes(dq, du, lam, phi, nBits=inp.get("nbits", 64), log=lambda *a, **k: None, **kw)
    fdf, lam0 = np.asarray(res.FDFcube) / unit, res.lam0Sq_m2
    untouched = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, before))
    expect = (len(phi),) + shape_tail
    if len(shape_tail) == 1:
        expect = tuple(s for s in expect if s != 1)
    expect_sq = tuple(s for s in (len(phi),) + shape_tail if s != 1)
    ok = tuple(s for s in fdf.shape if s != 1) == expect_sq
    out = None
    if ok:
        out = fdf.reshape(len(phi), -1).T
        if pick is not None: out = out[:, pick]
        if rep > 1:
            m = out.shape[0] // rep
            out = out.reshape(rep, m, -1)
            c = np.random.RandomState(rep).randint(0, rep)          # one copy, when all agree
            top = np.nanmax(np.abs(out)) if np.isfinite(out).any() else 1.0
            same = np.array_equal(np.isnan(out), np.broadcast_to(np.isnan(out[c]), out.shape)) and np.nanmax(np.abs(out - out[c]), initial=0) <= 1e-5 * top
            out = out[c] if same else out[[np.nanargmax(np.nan_to_num(np.abs(out - out[0]), nan=np.inf).reshape(rep, -1).max(axis=1))]][0]
    return out, fx(lam0 / unit_lam(inp) * den, 100), ok, untouched


def run_synth(inp):
    we = weff(inp["w"], inp["q"], inp["u"])
    q, u = arr(inp["q"], "float64"), arr(inp["u"], "float64")
    kind = inp["kind"]
    tail = layout_shape(0, len(q), tuple(kind) if isinstance(kind, list) else kind)[1:]
    fdf, lam0, ok, un = call_synth(inp, q, u, we, tail)
    return {"shape": bool(ok), "lam0": lam0, "untouched": bool(un),
            "fdf": [cxa(r, 1e5) for r in fdf] if ok else []}


def run_layout(inp):
    we = weff(inp["w"], inp["q"], inp["u"])
    q, u = arr(inp["q"], "float64"), arr(inp["u"], "float64")
    npix = len(q)
    full, fdfs, oks, uns, lam0 = [], [], True, True, None
    # as 2-D, as every 3-D factorisation, and each pixel alone as 1-D / permuted
    tails = [((npix,), list(range(npix)))]
    for ny in range(1, npix + 1):
        if npix % ny == 0:
            tails.append(((ny, npix // ny), list(range(npix))))
    perm = inp["perm"]
    tails.append(((npix,), perm))
    tails.append(((npix, 1), perm))
    if npix == 1:
        tails.append(((), [0]))
    for tail, order in tails:
        fdf, lam0, ok, un = call_synth(inp, q[order], u[order], we, tail)
        oks &= ok; uns &= un
        if ok:
            inv = np.argsort(order)
            full.append(fdf[inv])
    agree = bool(oks)
    if oks:
        a = full[0]
        for b in full[1:]:
            agree &= bool(np.array_equal(np.isnan(a), np.isnan(b)) and
                          np.allclose(np.nan_to_num(a), np.nan_to_num(b), atol=1e-5 * (1 + np.nanmax(np.abs(np.nan_to_num(a))))))
        fdfs = [[cxa(r, 1e5) for r in f] for f in full]
        keep = sorted(set([0, len(fdfs) - 1]))
        fdfs = [fdfs[i] for i in keep]
    return {"shape": bool(oks), "lam0": lam0, "untouched": bool(uns), "agree": agree, "fdfs": fdfs}


def run_rmsf(inp):
    from RMutils.util_RM import get_rmsf_planes
    npix, n = len(inp["msk"]), len(inp["lam"])
    we = []
    for j in range(n):
        w = inp["w"][j]
        we.append(0 if (w == NAN or all(inp["msk"][p][j] for p in range(npix))) else w)
    den, uphi, lam, phi, w, l0 = physics(inp, we)
    kind, rep = inp["kind"], inp.get("rep", 1)
    kw = {}
    args = [lam, phi]
    if w is not None:
        kw["weightArr"] = w; args.append(w)
    if l0 is not None:
        kw["lam0Sq_m2"] = l0
    tail = ()
    if kind != "none":
        m = np.array(inp["msk"], dtype=bool).T
        if kind == "1d":
            m = m[:, 0]
        elif kind == "2d":
            if rep > 1: m = np.tile(m, (1, rep))
            tail = (npix * rep,)
        else:
            tail = tuple(kind)
            m = m.reshape((n,) + tail)
        if inp.get("intmask"):
            m = m.astype(int)
        m = np.ascontiguousarray(m)
        kw["mskArr"] = m; args.append(m)
    before = [a.copy() for a in args]
    fit = inp["fit"]
    res = get_rmsf_planes(lam, phi, double=bool(inp["double"]), fitRMSF=fit > 0, fitRMSFreal=fit == 2,
                          nBits=inp.get("nbits", 64), log=lambda *a, **k: None, **kw)
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, before))
    r = np.asarray(res.RMSFcube); p2 = np.asarray(res.phi2Arr)
    fw = np.asarray(res.fwhmRMSFArr, dtype=float); st = np.asarray(res.statArr)
    def sq(s): return tuple(x for x in s if x != 1)
    ok = sq(r.shape) == sq((len(p2),) + tail) and sq(fw.shape) == sq(tail) and sq(st.shape) == sq(tail)
    if kind not in ("none", "1d", "2d"):
        ok = ok and r.shape == (len(p2),) + tail and fw.shape == tail
    if not ok:
        return {"shape": False, "untouched": bool(un)}
    r = r.reshape(len(p2), -1).T
    fw = fw.reshape(-1); st = st.reshape(-1)
    if rep > 1:                                      # many copies of the pixels: one copy, when all agree
        r = r.reshape(rep, npix, -1); fw = fw.reshape(rep, npix); st = st.reshape(rep, npix)
        dev = np.nan_to_num(np.abs(r - r[rep // 2]), nan=0.0).reshape(rep, -1).max(axis=1)
        dev += (np.isnan(r) != np.isnan(r[rep // 2])).reshape(rep, -1).any(axis=1)
        dev += ~np.isclose(fw, fw[rep // 2], rtol=1e-5, equal_nan=True).all(axis=1) + (st != st[rep // 2]).any(axis=1)
        c = int(np.argmax(dev)) if dev.max() > 2e-5 else np.random.RandomState(rep).randint(0, rep)
        r, fw, st = r[c], fw[c], st[c]
    rng = lam.max() - lam.min()
    return {"shape": True, "untouched": bool(un), "phi2": [fx(x, 1000) for x in p2 / uphi],
            "rmsf": [cxa(x, 1e5) for x in r], "lam0": fx(res.lam0Sq_m2 / unit_lam(inp) * den, 100),
            "fwhm": [fx(x * rng, 1000) for x in fw], "fwhmphi": [fx(x / uphi, 100) for x in fw],
            "stat": [int(x) for x in st]}


def base(**kw):
    d = dict(l0=[], g=1, tol=60, l0tol=5, nbits=64)
    d.update(kw)
    return d


def execute(inp):
    return {"synth": run_synth, "layout": run_layout, "rmsf": run_rmsf}[inp["op"]](inp)


def units(rng, d):
    """other units: fluxes in Jy or counts, weights of 1/variance"""
    if rng.random() < .4: d["pow"] = rng.choice([-44, -30, -24, -10, 12, 24])
    if rng.random() < .4: d["wpow"] = rng.choice([-36, -16, 10, 36])
    if rng.random() < .3: d["lpow"] = rng.choice([-16, -8, 8])      # millimetre to decametre waves
    return d


def rand_instance(rng, nch, npix, nphi, pflag=0.15, vmax=9, wmax=6, offset=True, symm=False):
    lam = sorted(rng.sample(range(40, 40 + 8 * nch), nch), reverse=rng.random() < 0.7)
    if rng.random() < 0.2:
        rng.shuffle(lam)
    w = [rng.choice([0, NAN] + list(range(1, wmax + 1)) * 3) for _ in range(nch)]
    def val():
        return rng.randint(-vmax, vmax)
    q = [[val() for _ in range(nch)] for _ in range(npix)]
    u = [[val() for _ in range(nch)] for _ in range(npix)]
    # flag patterns: isolated voxels, whole planes, whole pixels
    mode = rng.random()
    for p in range(npix):
        for j in range(nch):
            if rng.random() < pflag:
                r = rng.random()
                if r < 0.6: q[p][j] = u[p][j] = NAN
                elif r < 0.8: q[p][j] = NAN
                else: u[p][j] = NAN
    if mode < 0.4:
        j = rng.randrange(nch)
        for p in range(npix): q[p][j] = NAN
    if mode > 0.8:
        p = rng.randrange(npix)
        for j in range(nch): u[p][j] = NAN
    if 0.7 < mode < 0.8:
        p = rng.randrange(npix)
        q[p] = [0] * nch; u[p] = [0] * nch
    if symm:
        h = nphi // 2; d = rng.randint(1, 9)
        phi = [d * k for k in range(-h, h + 1)]
    elif rng.random() < 0.5:
        d = rng.randint(1, 9); o = rng.randint(-60, 60)
        phi = [o + d * k for k in range(nphi)]
    else:
        phi = sorted(rng.sample(range(-90, 90), nphi))
    return lam, w, q, u, phi
