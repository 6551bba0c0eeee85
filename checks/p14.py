"""P14: RM-CLEAN of FITS cubes."""
from clean3lib import *
SPEC = [("Layout", "Layout_quick.cfg", {"tier": "quick"}), ("Layout", "Layout_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "CleanCubeTrace"
CASE_LIMIT = 120
RULE = ("every axis order and shape emitted by the exhaustively explored layout model, as lattice cubes of known spectra, spread functions and "
        "widths and as the files of 3-D synthesis, with random directories, prefixes, cutoffs, windows, worker pools and chunk sizes; "
        "each output pixel compared with the CLEAN equations of the specification and with the 1-D CLEAN of that pixel")
ASSUMPTIONS = ["sky axes appear in the order longitude, latitude", "single-component input files, as documented"]


def execute(inp):
    return run_clean3(inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 50 if ctx.quick else 800)):
            o, z = [a["t"] for a in c["ax"]], {a["t"]: a["n"] for a in c["ax"]}
            yield mk_clean3(rng, ["p" if t == "f" else t for t in o], z)
            if not ctx.quick or rng.random() < .4: yield mk_clean3_synth(rng, o, z)
    for _ in range(60 if ctx.quick else 1000):
        yield mk_clean3(rng)
    for _ in range(30 if ctx.quick else 500):
        yield mk_clean3_synth(rng)
