"""P11: one-dimensional RM synthesis is self-consistent."""
from synth1dlib import *
SPEC = [("Synth1DMC", "Synth1DMC_quick.cfg", {"tier": "quick"}), ("Synth1DMC", "Synth1DMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "Synth1DTrace"
RULE = ("every combination of flag and noise states of the exhaustively explored pipeline model, embedded in random spectra; random lattice "
        "spectra with five or seven columns, supplied/fitted Stokes I, both weightings, 32/64 bit; default and requested depth grids")
ASSUMPTIONS = ["Stokes I spectra that a fitted model reproduces exactly (constant, or proportional to lambda^2), or a supplied model"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        if len(cs) > (700 if ctx.quick else 5000):
            cs = rng.sample(cs, 700 if ctx.quick else 5000)
        for c in cs:
            d = mk_run(rng, c["data"], c["noise"], c["mode"], c["stokesI"])
            if d: yield d
    for i in range(150 if ctx.quick else 3000):
        d = mk_run(rng)
        if d: yield d
    for i in range(80 if ctx.quick else 600):
        yield mk_grid(rng)
