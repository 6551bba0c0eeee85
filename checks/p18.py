"""P18: Stokes I coefficient maps moved to another reference frequency."""
from fitcubelib import *
SPEC = [("FitCube", "FitCube_quick.cfg", {"tier": "quick"}), ("FitCube", "FitCube_thorough.cfg", {"tier": "thorough", "workers": 8}),
        ("StokesIMC", "StokesIMC_linear.cfg", {"tier": "quick"}), ("StokesIMC", "StokesIMC_log.cfg", {"tier": "quick"}),
        ("StokesIMC", "StokesIMC_linear_thorough.cfg", {"tier": "thorough", "workers": 8}), ("StokesIMC", "StokesIMC_log_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "FitCubeTrace"
RULE = ("random coefficient and covariance maps, blank pixels, zero planes, per-pixel and common reference frequencies, command line modes, blank patterns and "
        "completion orders of the explored pool model, real process pools; new maps compared with the specification's change of reference and propagated errors")
ASSUMPTIONS = ["reference frequency changes within about 40%"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        if not cfg.startswith("FitCube"): continue
        for c in rng.sample(cs, min(len(cs), 150 if ctx.quick else 3000)):
            rank = [0] * len(c["order"])
            for pos, k in enumerate(c["order"]): rank[k - 1] = pos
            yield rescale_case(rng, blank=[not s for s in c["src"]], order=rank or [0])
    for i in range(350 if ctx.quick else 6000):
        d = rescale_case(rng)
        if i % 25 == 0: d.update(real=True)
        yield d
    for _ in range(50 if ctx.quick else 1000): yield chain_case(rng)
