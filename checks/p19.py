"""P19: peak fitting of cubes."""
from peak3lib import *
SPEC = [("Layout", "Layout_quick.cfg", {"tier": "quick"}), ("Layout", "Layout_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "PeakCubeTrace"
CASE_LIMIT = 120
RULE = ("every axis order and shape emitted by the exhaustively explored layout model plus random cubes of lattice spectra with random widths, "
        "noise, Stokes I models, blank pixels, directories and product sets; every map compared pixel by pixel with the measurement rules of the "
        "specification and with the 1-D measurement")
ASSUMPTIONS = ["sky axes appear in the order longitude, latitude", "noise and a Stokes I model are not given together"]


def execute(inp):
    return run_peak3(inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 50 if ctx.quick else 800)):
            yield mk_peak3(rng, [a["t"] if a["t"] != "f" else "p" for a in c["ax"]], {a["t"]: a["n"] for a in c["ax"]})
    for _ in range(80 if ctx.quick else 1500):
        yield mk_peak3(rng)
