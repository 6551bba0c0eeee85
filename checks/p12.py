"""P12: one-dimensional synthesis to CLEAN through files."""
from handoverlib import *
SPEC = [("HandoverMC", "HandoverMC_quick.cfg", {"tier": "quick"}), ("HandoverMC", "HandoverMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "HandoverTrace"
RULE = ("sessions (sequences of synthesis, save, read, CLEAN, save, command line runs under two file prefixes) drawn from all those of the "
        "exhaustively explored session model, executed in scratch directories; random hand-overs with all cutoff and window conventions")
ASSUMPTIONS = ["cleaning decisions within 2e-5 of the peak of a threshold are not judged"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 45 if ctx.quick else 600)):
            yield mk_session(rng, c["ops"])
    for i in range(100 if ctx.quick else 1300):
        yield mk_handover(rng)
