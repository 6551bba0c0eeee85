"""P10: fractional spectra."""
from stokeslib import *
SPEC = [("FracMC", "FracMC_quick.cfg")]
TRACE = "StokesITrace"
RULE = "every channel pattern of the explored division model as supplied Stokes I models, plus seeded spectra (ordinary, faint, crossing zero, failing fits)"
ASSUMPTIONS = ["models within 2e-5 of zero or of the error in a channel are not judged for the flags"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for i, c in enumerate(cs):
            if ctx.quick and i % 4: continue
            yield frac_case(rng, c["q"], c["m"])
    for i in range(600 if ctx.quick else 8000):
        yield frac_case(rng)
