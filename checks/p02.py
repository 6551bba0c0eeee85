"""P02: flags, layouts."""
from synthlib import *
from vlib import NAN
SPEC = [("RMSynthMC", "RMSynthMC_flags.cfg")]
TRACE = "RMSynthTrace"
ASSUMPTIONS = ["finufft evaluates its sum to the tolerance it documents"]
RULE = ("all flag/zero patterns of the small instance emitted by TLC, each replayed as 2-D, every 3-D factorisation, "
        "permuted and 1-D; plus seeded random flag patterns on larger cubes")


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in cs:
            yield base(op="layout", perm=[1, 0], **c)
    n = 150 if ctx.quick else 1500
    for i in range(n):
        nch = rng.choice([2, 3, 5, 8, 12])
        npix = rng.choice([1, 2, 3, 4, 6, 12])
        nphi = rng.choice([2, 3, 5])
        lam, w, q, u, phi = rand_instance(rng, nch, npix, nphi, pflag=rng.choice([.1, .3, .6]), symm=rng.random() < .5)
        # flag kinds: one isolated voxel in a single pixel; all but one pixel; a plane except one pixel
        r = rng.random()
        if r < .25 and npix > 1:
            j = rng.randrange(nch)
            for p in range(npix): q[p][j] = u[p][j] = NAN
            p = rng.randrange(npix); q[p][j] = 5; u[p][j] = -3
        perm = list(range(npix)); rng.shuffle(perm)
        d = base(op="layout", lam=lam, w=w, q=q, u=u, phi=phi, perm=perm, g=rng.choice([1, 2, 5, 10]))
        if rng.random() < .3:
            d["w"] = [1] * nch; d["wnone"] = 1
        if rng.random() < .2:
            d["nbits"] = 32; d["tol"] = 900
        if i % 12 == 5:                                 # nothing but U, left unrotated
            k = rng.randrange(nch)
            for p in range(npix):
                q[p] = [0 if j == k else NAN for j in range(nch)]; u[p] = [rng.choice([-3, 4, 7]) if j == k else NAN for j in range(nch)]
            if w[k] in (0, NAN): w[k] = 2
        if rng.random() < .25 and i % 12 != 5:
            d["l0"] = [rng.randint(100, 900), rng.randint(1, 9)]
        yield units(rng, d)
    # many copies of a few pixels with their own flags
    for i in range(4 if ctx.quick else 40):
        nch, npix = rng.choice([40, 130]), rng.choice([2, 3, 4])
        lam, w, q, u, phi = rand_instance(rng, nch, npix, 3, pflag=rng.choice([.1, .3]), vmax=2, wmax=3)
        phi = sorted(rng.sample(range(-25, 25), 3))
        perm = list(range(npix)); rng.shuffle(perm)
        yield units(rng, base(op="layout", lam=lam, w=w, q=q, u=u, phi=phi, perm=perm, g=1, rep=rng.choice([30, 300]), tol=100))
