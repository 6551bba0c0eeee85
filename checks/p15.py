"""P15: splitting a cube into chunks and assembling them."""
from cubelib import *
SPEC = [("Pipeline", "Pipeline_quick.cfg", {"tier": "quick"}), ("Pipeline", "Pipeline_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "CubeTrace"
CASE_LIMIT = 120
RULE = ("histories of region extraction, splitting, per-chunk processing and assembly emitted by the exhaustively explored pipeline model, "
        "run through the command line tools in scratch directories, and random chunkings (one to many chunks)")


def execute(inp):
    return run_pipe(inp)


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        cs = [c for c in cs if any(o["op"] == "split" for o in c["hist"])]
        for c in rng.sample(cs, min(len(cs), 60 if ctx.quick else 1500)):
            yield mk_pipe(rng, c["hist"], (3, 4, 2))
    for _ in range(120 if ctx.quick else 2500):
        yield mk_chunks(rng)
    # many chunks: file names of two and three digits
    for nx, ny, n in ([(12, 11, 1), (10, 10, 1), (11, 9, 1), (5, 2, 1), (13, 17, 2)] if ctx.quick else [(12, 11, 1), (10, 10, 1), (11, 9, 1), (5, 2, 1), (13, 17, 2), (41, 25, 1), (40, 25, 1), (33, 31, 1), (50, 50, 25)]):
        yield mk_pipe(rng, [dict(op="split", box=[], n=n), dict(op=rng.choice(["assemble", "assemble1"]), box=[], n=0)], (nx, ny, 2))
