"""P22: Q/U predicted from clean components."""
from predictlib import *
SPEC = [("QUPredictMC", "QUPredictMC_quick.cfg"), ("QUPredictMC", "QUPredictMC_six.cfg"), ("QUPredictMC", "QUPredictMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "QUPredictTrace"
CASE_LIMIT = 120
RULE = ("component lists reached by the specification on the orthogonal grid of the channels, predicted and synthesised back by the real code; random component lists, channels, reference "
        "wavelengths and Stokes I models through the function and the command-line tool; and whole chains rmsynth1d, rmclean1d, prediction for Faraday-thin sources with a known Stokes I spectrum")
ASSUMPTIONS = ["chains: one noise-free component on a sample of the depth grid, cleaned to 0.2 per cent, judged within 3 per cent", "values judged within 250 parts per million plus table rounding"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 300 if ctx.quick else 2000)): yield round_case(c, rng)
    for _ in range(700 if ctx.quick else 12000): yield predict_case(rng)
    for _ in range(36 if ctx.quick else 900): yield chain_case(rng)
