"""P09: change of the reference frequency of a Stokes I model."""
from stokeslib import *
SPEC = [("StokesIMC", "StokesIMC_linear.cfg"), ("StokesIMC", "StokesIMC_log.cfg"),
        ("StokesIMC", "StokesIMC_linear_thorough.cfg", {"tier": "thorough", "workers": 8}), ("StokesIMC", "StokesIMC_log_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "StokesITrace"
RULE = "every behaviour (path of reference changes) of the explored model machine and seeded random coefficients, covariances and paths"
ASSUMPTIONS = []


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for i, c in enumerate(cs):
            if ctx.quick and i % 3: continue
            if c["fn"] == "linear":
                at, st = 20, []
                for b in c["steps"]: st.append([b, at]); at = b
            else:
                at, st = 0, []
                for b in c["steps"]: st.append([(b - at) * 5000]); at = b
            yield renorm_case(rng, c["fn"], c["p"], st)
    for i in range(500 if ctx.quick else 6000):
        yield renorm_case(rng)
    for i in range(250 if ctx.quick else 4000):
        yield prop_case(rng)
