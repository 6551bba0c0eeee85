"""P05: the iteration rules of RM-CLEAN."""
from cleanlib import *
SPEC = [("RMCleanMC", "RMCleanMC_quick.cfg", {"tier": "quick"}),
        ("RMCleanMC", "RMCleanMC_quick.cfg", {"tier": "thorough"}),
        ("RMCleanMC", "RMCleanMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "RMCleanTrace"
OWN = {"OneComponentPerIteration", "ComponentIsGainTimesPeak", "PeakChoice", "SubtractShiftedRMSF", "IterationCount", "NoHiddenIteration",
       "IterationLimit", "Untouched", "CutoffNotReached", "WindowNotReached", "IteratesBelowThreshold"}
RULE = ("iteration histories (limit raised one by one) of every initial state of the exhaustively explored CLEAN machine and of "
        "seeded random spectra, spread functions, cutoffs, windows and gains; every transition judged by the machine")
ASSUMPTIONS = ["decisions within 4e-5 of a threshold are not judged, except at iteration 0 where they are exact"]


def hist(c, rng):
    f = c["f2"] // 10
    return dict(op="history", f=f if 12 % f == 0 else 0, limit=6, dphi=rng.choice([1.0, 2.5]), off=-1, nd=1, nbits=64, **c)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        if ctx.quick: cs = [c for i, c in enumerate(cs) if i % 2 == 0]
        for c in cs: yield hist(c, rng)
    for i in range(260 if ctx.quick else 3000):
        yield rand_history(rng, not ctx.quick)
    # windows clipped at the ends of the axis
    for i in range(60 if ctx.quick else 400):
        yield edge_history(rng)
    # exact ties with the cutoff
    for i in range(20 if ctx.quick else 100):
        d = rand_history(rng)
        k = rng.randrange(len(d["dirty"])); m = 32768 * rng.choice([1, 2, 4])
        d["dirty"] = [[x // 20, y // 20] for x, y in d["dirty"]]
        d["dirty"][k] = rng.choice([[m, 0], [0, m], [-m, 0]])
        d["cutoff"] = m + rng.choice([0, 0, 1]); d["nbits"] = 64
        yield d
