"""P03: the RMSF."""
from synthlib import *
from vlib import NAN
SPEC = [("RMSynthMC", "RMSynthMC_flags.cfg")]
TRACE = "RMSynthTrace"
ASSUMPTIONS = ["finufft evaluates its sum to the tolerance it documents",
               "the Gaussian fit to the main lobe is judged by the half-maximum width of the RMSF itself (15 %)"]
RULE = ("masks of all final states of the synthesis machine plus seeded random masks (none, whole planes, isolated, "
        "mixed), grids of odd/even length, doubling on/off, fitted widths on well-sampled lobes")


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in cs:
            msk = [[1 if (c["q"][p][j] == NAN or c["u"][p][j] == NAN) else 0 for j in range(len(c["lam"]))] for p in range(len(c["q"]))]
            if sum(0 if (x == NAN or all(m[j] for m in msk)) else x for j, x in enumerate(c["w"])) == 0:
                continue       # no usable channel: the RMSF is undefined
            yield base(op="rmsf", w=c["w"], lam=c["lam"], msk=msk, phi=[-2, -1, 0, 1, 2], g=c["g"], double=1, fit=0, kind="2d")
    n = 220 if ctx.quick else 2200
    for i in range(n):
        nch = rng.choice([2, 3, 5, 8, 12])
        npix = rng.choice([1, 2, 3, 4, 6])
        nphi = rng.choice([2, 3, 4, 5, 6, 7, 9])
        lam, w, q, u, phi = rand_instance(rng, nch, npix, nphi, pflag=rng.choice([0, .1, .3]), symm=rng.random() < .6)
        msk = [[1 if (q[p][j] == NAN or u[p][j] == NAN) else 0 for j in range(nch)] for p in range(npix)]
        if len(phi) < 2: continue
        d = base(op="rmsf", lam=lam, w=w, msk=msk, phi=phi, double=int(rng.random() < .7), fit=0, g=rng.choice([1, 2, 5, 10]))
        r = rng.random()
        if r < .2:
            d["kind"] = "none"; d["msk"] = [[0] * nch]
        elif npix == 1: d["kind"] = "1d"
        elif npix in (4, 6) and rng.random() < .7: d["kind"] = [2, npix // 2]
        else: d["kind"] = "2d"
        if d["kind"] != "none" and r > .8:     # whole planes only: the shared-RMSF path
            for j in range(nch):
                f = rng.random() < .3
                for p in range(npix): d["msk"][p][j] = int(f)
        if sum(0 if (x == NAN or all(m[j] for m in d["msk"])) else x for j, x in enumerate(w)) == 0: continue
        if max(lam) == min(lam): continue
        if rng.random() < .15: d["w"] = [1] * nch; d["wnone"] = 1
        if rng.random() < .2: d["l0"] = [rng.randint(100, 900), rng.randint(1, 9)]
        if rng.random() < .2: d["intmask"] = 1
        if rng.random() < .2: d["nbits"] = 32; d["tol"] = 900
        yield units(rng, d)
    # fitted widths
    for i in range(24 if ctx.quick else 200):
        nch = rng.choice([20, 30])
        lam = list(range(100, 100 + nch))
        w = [rng.randint(1, 4) for _ in range(nch)] if rng.random() < .5 else [1] * nch
        npix = rng.choice([1, 1, 2, 3, 6])
        msk = [[0] * nch for _ in range(npix)]
        r = rng.random()
        if r < .6:
            for p in range(npix):
                for j in rng.sample(range(3, nch - 3), 3): msk[p][j] = 1
        elif r < .85:                                   # pixels that keep their own parts of the band
            for p in range(npix):
                k = rng.randint(0, nch // 2); e = rng.random() < .5
                for j in (range(k) if e else range(nch - k, nch)): msk[p][j] = 1
            msk[rng.randrange(npix)] = [0] * nch
        d = base(op="rmsf", lam=lam, w=w, msk=msk, double=1, fit=rng.choice([1, 1, 2]), g=1)
        we = [0 if all(m[j] for m in msk) else w[j] for j in range(nch)]
        W = sum(we)
        # main lobe FWHM = 870/nch lattice depth units (den = 1); sample it ~8 times
        d["l0"] = [100 + nch // 2, 1]
        st = max(1, 870 // nch // 8)
        d["phi"] = [st * k for k in range(-30, 31)]
        d["kind"] = "1d" if npix == 1 else "2d" if npix < 6 or rng.random() < .3 else rng.choice([[2, 3], [3, 2]])
        yield d
    # the size of real data
    for i in range(6 if ctx.quick else 40):
        nch = rng.choice([130, 257, 512])
        npix = rng.choice([1, 2, 3])
        lam, w, q, u, phi = rand_instance(rng, nch, npix, 3, pflag=rng.choice([0, .05]), wmax=3)
        msk = [[1 if (q[p][j] == NAN or u[p][j] == NAN) else 0 for j in range(nch)] for p in range(npix)]
        if sum(0 if (x == NAN or all(m[j] for m in msk)) else x for j, x in enumerate(w)) == 0: continue
        h = rng.choice([40, 150])
        phi = [k for k in range(-h, h + 1)] if rng.random() < .6 else [k + 7 for k in range(2 * h)]
        n2 = len(phi) + 2 * ((len(phi) + 1) // 2)
        look = sorted(rng.sample(range(max(1, n2 // 2 - 60), n2 // 2 + 60), 6)) + [n2 // 2 + 1]
        d = base(op="rmsf", lam=lam, w=w, msk=msk, phi=phi, look=look, double=1, fit=0, g=1, kind="2d", rep=rng.choice([1, 40]), tol=100)
        if len(w) > 300: d["lam"], d["w"], d["msk"] = lam[:300], w[:300], [m[:300] for m in msk]
        if sum(0 if (x == NAN or all(m[j] for m in d["msk"])) else x for j, x in enumerate(d["w"])) == 0: continue
        yield d
