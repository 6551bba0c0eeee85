"""P27: the RMSF calculator."""
from rmsflib import *
SPEC = [("RmsfCalcMC", "RmsfCalcMC_quick.cfg"), ("RmsfCalcMC", "RmsfCalcMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "RmsfCalcTrace"
RULE = ("samplings laid down by the specification and random ones (weighted, unevenly spaced, either order), given to the command line tool as one- or two-column files, separate weight files or a generated range; "
        "what it prints is parsed and judged")
ASSUMPTIONS = ["values are printed with four significant figures", "Faraday depth grids are symmetric about zero", "measured FWHM is that of get_rmsf_planes, judged by P03"]


def cases(ctx, model):
    rng = ctx.rng
    k = 1 if ctx.quick else 12
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 60 * k)):
            if sum(v > 0 for v in c["w"]) >= 2: yield lat_case(rng, c)
    for f, m in ((lat_case, 120), (mhz_case, 60), (bad_case, 6)):
        for _ in range(m * k): yield f(rng)
