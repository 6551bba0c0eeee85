"""P07: peak measurements of a Faraday spectrum."""
from measurelib import *
SPEC = [("MeasureFDFMC", "MeasureFDFMC_quick.cfg", {"tier": "quick"}),
        ("MeasureFDFMC", "MeasureFDFMC_quick.cfg", {"tier": "thorough"}),
        ("MeasureFDFMC", "MeasureFDFMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "MeasureFDFTrace"
RULE = ("every amplitude pattern of the exhaustively explored measurement model (with random phases) plus seeded random spectra with "
        "peaks at the ends, exact S/N ties, noise given or measured")
ASSUMPTIONS = ["spectra whose samples have integer modulus (exact peak comparison)"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for i, c in enumerate(cs):
            if ctx.quick and i % 3: continue
            m = rng.choice([5, 10, 35])
            amp = [a * m for a in c["amp"]]
            if max(amp[1:-1]) == 0: continue
            yield mk(rng, amp, c["step"], 0, rng.choice([13, 24, 7]) * c["step"])
    for i in range(600 if ctx.quick else 8000):
        yield rand_case(rng)
    for i in range(60 if ctx.quick else 400):
        yield tie_case(rng)
