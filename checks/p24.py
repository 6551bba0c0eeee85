"""P24: bandwidth depolarisation."""
from bwlib import *
SPEC = [("BwDepolMC", "BwDepolMC_quick.cfg"), ("BwAdjMC", "BwAdjMC_quick.cfg"),
        ("BwDepolMC", "BwDepolMC_thorough.cfg", {"tier": "thorough", "workers": 8}), ("BwAdjMC", "BwAdjMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "BwDepolTrace"
RULE = ("channel splittings and channel sets reached by the specification, random channels, adjoint syntheses, predictions and spread functions, and whole runs of rmtools_bwdepol (function and command line, "
        "5 to 8 columns) judged against the frequency-averaged response computed by quadrature in the specification")
ASSUMPTIONS = ["the phase changes by at most about 10 rad across one channel", "amplitudes judged within 1e-3 to 4e-3 of the largest channel value"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        f = rot_case if cfg.startswith("BwDepol") else adj_case
        for c in rng.sample(cs, min(len(cs), 150 if ctx.quick else 1500)):
            d = f(rng, c)
            if d: yield d
    for k in (rot_case, adj_case, pred_case, rmsf_case, run_case):
        for _ in range({rot_case: 80, adj_case: 150, pred_case: 40, rmsf_case: 50, run_case: 120}[k] * (1 if ctx.quick else 14)):
            d = k(rng)
            if d: yield d
