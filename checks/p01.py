"""P01: the synthesis sum."""
from synthlib import *
from vlib import NAN
SPEC = [("RMSynthMC", "RMSynthMC_quick.cfg", {"tier": "quick"}),
        ("RMSynthMC", "RMSynthMC_quick.cfg", {"tier": "thorough"}),
        ("RMSynthMC", "RMSynthMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "RMSynthTrace"
ASSUMPTIONS = ["finufft evaluates its sum to the tolerance it documents",
               "phases on the half-degree lattice are representative of all phases"]
RULE = ("every final state of the exhaustively explored synthesis machine (all weight/flag/value patterns of the "
        "small instance) plus seeded random spectra with unequal weights, arbitrary depth lists, forced references, "
        "wide and narrow bands, 32/64 bit")


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in cs:
            yield base(op="synth", kind="2d", **c)
    n = 260 if ctx.quick else 2500
    for i in range(n):
        nch = rng.choice([1, 2, 3, 5, 8, 12, 16])
        npix = rng.choice([1, 1, 2, 3, 4, 6])
        nphi = rng.choice([1, 2, 3, 5, 7, 9])
        lam, w, q, u, phi = rand_instance(rng, nch, npix, nphi, pflag=rng.choice([0, 0, .1, .3]), symm=rng.random() < .4)
        d = base(op="synth", lam=lam, w=w, q=q, u=u, phi=phi, g=rng.choice([1, 2, 5, 10, 30]))
        if npix == 1 and rng.random() < .7: d["kind"] = "1d"
        elif npix in (4, 6) and rng.random() < .7: d["kind"] = [2, npix // 2]
        else: d["kind"] = "2d"
        r = rng.random()
        if r < .15:
            d["w"] = [1] * nch; d["wnone"] = 1
        elif r < .25:
            s = rng.randint(1, 5); d["w"] = [s] * nch
        r = rng.random()
        if r < .12: d["l0"] = [0, 1]
        elif r < .3: d["l0"] = [rng.randint(100, 900), rng.randint(1, 9)]
        if rng.random() < .25:
            d["nbits"] = 32; d["tol"] = 900
        if rng.random() < .2: d["fortran"] = 1
        yield units(rng, d)
    # many channels, large weights contrast
    for i in range(6 if ctx.quick else 60):
        nch = 40
        lam, w, q, u, phi = rand_instance(rng, nch, 1, 11, pflag=.05, vmax=5, wmax=6)
        yield base(op="synth", lam=lam, w=w, q=q, u=u, phi=phi, g=1, kind="1d")
    # the size of real data: hundreds of channels and depths, a thousand pixels
    for i in range(6 if ctx.quick else 40):
        nch = rng.choice([130, 257, 512])
        lam, w, q, u, phi = rand_instance(rng, nch, rng.choice([1, 2, 4]), 4, pflag=.05, vmax=2, wmax=3)
        phi = sorted(rng.sample(range(-25, 25), 4))
        d = base(op="synth", lam=lam, w=w, q=q, u=u, phi=phi, g=1, kind="2d", pad=rng.choice([300, 1201]), rep=rng.choice([1, 60, 300]), tol=100)
        if d["rep"] > 60: d["lam"], d["w"] = lam[:130], w[:130]; d["q"], d["u"] = [r[:130] for r in q], [r[:130] for r in u]
        if len(q) == 4 and rng.random() < .6: d["kind"] = [2, 2]
        if rng.random() < .3: d["nbits"] = 32; d["tol"] = 900
        yield units(rng, d)
