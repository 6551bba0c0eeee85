"""P25: robust statistics and complexity metrics."""
from robustlib import *
SPEC = [("RobustMC", "RobustMC_quick.cfg"), ("RobustMC", "RobustMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "RobustTrace"
CASE_LIMIT = 200
RULE = ("sequences reached by the specification as data, amplitudes and residuals; random arrays along every axis, cumulative curves, component spectra, data sets with errors; and whole runs of rmsynth1d, rmclean1d and "
        "rmtools_bwdepol, whose metrics must be those of their own residuals")
ASSUMPTIONS = ["percentile levels 15.8/50/84.2 within 0.3 per cent", "posterior densities judged over four decades within two per cent plus rounding"]


def cases(ctx, model):
    rng = ctx.rng
    k = 1 if ctx.quick else 14
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 240 * k)):
            for d in (mad_case(rng, [c["s"]]), mom_case(rng, c["s"]), sig_case(rng, c["s"]) if rng.random() < .5 else None):
                if d: yield d
    for f, m in ((mad_case, 250), (pct_case, 200), (mom_case, 120), (sig_case, 120), (cx_case, 60), (run_case, 50)):
        for _ in range(m * k):
            d = f(rng)
            if d: yield d
