"""P04: signal conservation of RM-CLEAN."""
from cleanlib import *
SPEC = [("RMCleanMC", "RMCleanMC_quick.cfg")]
TRACE = "RMCleanTrace"
OWN = {"Conservation", "RestoredSum", "InputsUnmodified", "SubtractShiftedRMSF", "Untouched"}
RULE = ("conservation and restoration after every iteration of seeded random histories, and in every pixel of cubes whose pixels "
        "have their own spread function and width, plus the initial states of the exhaustive CLEAN machine")
ASSUMPTIONS = ["Gaussian widths are divisors of 12 depth steps (tabulated)"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for i, c in enumerate(cs):
            if i % 4 == 0 or not ctx.quick:
                f = c["f2"] // 10
                yield dict(op="history", f=f, limit=6, dphi=1.5, off=-2, nd=1, nbits=64, **c)
    for i in range(160 if ctx.quick else 2500):
        d = rand_history(rng, not ctx.quick)
        if not d["f"]:
            d["f"] = rng.choice([1, 2, 3, 4, 6, 12]); d["f2"] = 10 * d["f"]
        d["limit"] = 6
        yield d
    shapes = [(), (1,), (3,), (4,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (2, 2)]
    for i in range(150 if ctx.quick else 1500):
        yield rand_cube(rng, shapes)
