"""P08: Stokes I fit and its order search."""
from stokeslib import *
SPEC = [("OrderSearch", "OrderSearch_quick.cfg", {"tier": "quick"}),
        ("OrderSearch", "OrderSearch_quick.cfg", {"tier": "thorough"}),
        ("OrderSearch", "OrderSearch_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "StokesITrace"
RULE = ("every pattern of accepted/refused orders of the exhaustively explored order search is realised by constructed data for both "
        "function families (with flagged channels); fixed-order fits of the same data provide the AIC of each order")
ASSUMPTIONS = ["least-squares optimality judged for orders <= 3 on wide bands", "AIC differences below 0.003 are not judged"]


def cases(ctx, model):
    rng = ctx.rng
    pats = []
    for cfg, cs in model.items():
        for c in cs:
            if c not in pats: pats.append(c)
    for k in range(2 if ctx.quick else 12):
        for c in pats:
            for fn in ("linear", "log"):
                yield pattern_fit(rng, c["down"], c["limit"], fn)
