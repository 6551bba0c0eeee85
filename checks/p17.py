"""P17: Stokes I cube fits."""
from fitcubelib import *
SPEC = [("FitCube", "FitCube_quick.cfg", {"tier": "quick"}), ("FitCube", "FitCube_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "FitCubeTrace"
CASE_LIMIT = 200
RULE = ("every source mask, per-pixel order, chunk size and completion order of the exhaustively explored pool model replayed on the real tool, plus random cubes "
        "(axis orders, flux scales, flags, thresholds, orders, file layouts) and real process pools; noise and mask recomputed by the specification, every map "
        "compared with the 1-D fit of the pixel and the maps evaluated into the model cube by the specification")
ASSUMPTIONS = ["noise and mask are judged for planes without ties at a threshold", "4-D cubes are at least two pixels wide and high"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 120 if ctx.quick else 3000)):
            size = (len(c["src"]), rng.choice([1, 1, 2]))
            rank = [0] * len(c["order"])
            for pos, k in enumerate(c["order"]): rank[k - 1] = pos
            yield fit_case(rng, sel=c["src"], use=c["mask"], order=rank or [0], maxord=c["max"], ords=c["ord"], chunk=c["chunk"], size=size)
    for _ in range(90 if ctx.quick else 2500): yield fit_case(rng)
    for k in range(3 if ctx.quick else 20):          # as many channels as real cubes
        d = fit_case(rng, sel=[True] + [rng.random() < .5 for _ in range(5)], use=k % 3 < 2 or None, size=rng.choice([(2, 2), (3, 2)]), nchan=[140, 270, 200][k % 3]); d["thr"] = [300000, -1500, 50000][k % 3]
        yield d
    for i in range(3 if ctx.quick else 16):
        d = fit_case(rng, size=(3, 4)); d.update(real=True, ncores=[3, 2, 1][i % 3], verbose=i % 2 == 0, chunk=[2, 1, 5][i % 3])
        yield d
