"""P13: 3-D synthesis on FITS cubes."""
from cube3dlib import *
SPEC = [("Layout", "Layout_quick.cfg", {"tier": "quick"}), ("Layout", "Layout_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "Cube3DTrace"
CASE_LIMIT = 120
RULE = ("every axis order and shape emitted by the exhaustively explored layout model, plus random cubes: flags in Q, U and the Stokes I model, "
        "weights, file layouts, directories and prefixes; all output files compared pixel by pixel with the Faraday sums of the specification")
ASSUMPTIONS = ["sky axes appear in the order longitude, latitude", "finufft keeps its documented tolerance in single precision"]


def execute(inp):
    return run_synth3(inp) if inp["op"] == "synth3" else run_auto3(inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 70 if ctx.quick else 1200)):
            yield mk_synth3(rng, [a["t"] for a in c["ax"]], {a["t"]: a["n"] for a in c["ax"]})
    for _ in range(90 if ctx.quick else 1500):
        yield mk_synth3(rng)
    for _ in range(60 if ctx.quick else 1000):
        yield mk_auto3(rng)
