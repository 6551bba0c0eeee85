"""P16: region extraction."""
from cubelib import *
SPEC = [("Pipeline", "Pipeline_quick.cfg", {"tier": "quick"}), ("Pipeline", "Pipeline_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "CubeTrace"
CASE_LIMIT = 120
RULE = ("histories of region extractions emitted by the exhaustively explored pipeline model and random boxes, in all argument forms of the "
        "command line (open ends, beyond the border, centre and half width), run through the tool in scratch directories")


def execute(inp):
    return run_pipe(inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        cs = [c for c in cs if all(o["op"] == "crop" for o in c["hist"])]
        for c in rng.sample(cs, min(len(cs), 150 if ctx.quick else 2500)):
            yield mk_pipe(rng, c["hist"], (3, 4, 2))
    for _ in range(250 if ctx.quick else 4000):
        yield mk_crop(rng)
