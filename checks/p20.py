"""P20: QU-fitting models."""
from qulib import *
SPEC = [("QUModelsMC", "QUModelsMC_quick.cfg"), ("QUModelsMC", "QUModelsMC_fine.cfg"), ("QUModelsMC", "QUModelsMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "QUModelsTrace"
CASE_LIMIT = 60
RULE = ("every reachable source of the specification expressed in every built-in model that can describe it and evaluated by the real model (with turned, swapped and "
        "padded parameter vectors), random parameter vectors including the boundaries of the priors, and draws from the real priors judged by the specification")
ASSUMPTIONS = ["the numerical ranges of the depth priors are not prescribed, only their signs and symmetry"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 500 if ctx.quick else 20000)): yield alike_case(rng, c["src"], sorted(c["models"]))
    for m in MODELS:
        yield dict(op="prior", model=m, seed=rng.randrange(10 ** 6), n=200 if ctx.quick else 2000)
        for _ in range(80 if ctx.quick else 3000): yield fix_tol(value_case(rng, m))
