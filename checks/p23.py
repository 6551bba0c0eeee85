"""P23: coordinates of axes, frequency files and the spectrum of a pixel."""
from cubelib import *
SPEC = [("Layout", "Layout_quick.cfg", {"tier": "quick"}), ("Layout", "Layout_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "CubeTrace"
RULE = ("axis orders emitted by the exhaustively explored layout model and random headers: one-axis coordinates, frequency files made by the "
        "command line tool, and the spectra that reach 1-D synthesis from its FITS front end")
ASSUMPTIONS = ["sky axes appear in the order longitude, latitude; the frequency axis is in Hz"]


def execute(inp):
    return {"axis": run_axis, "freqfile": run_freqfile, "pixel": run_pixel, "front": run_front}[inp["op"]](inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 60 if ctx.quick else 1000)):
            yield from from_layout(rng, c)
    for _ in range(150 if ctx.quick else 4000): yield mk_axis(rng)
    for _ in range(60 if ctx.quick else 1000): yield mk_freqfile(rng)
    for _ in range(120 if ctx.quick else 2500): yield mk_pixel(rng)
    for _ in range(40 if ctx.quick else 600): yield mk_front(rng)
