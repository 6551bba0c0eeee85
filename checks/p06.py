"""P06: RM-CLEAN of a cube under every schedule of a worker pool."""
from cleanlib import *
SPEC = [("RMCleanPool", "RMCleanPool_quick.cfg", {"tier": "quick"}),
        ("RMCleanPool", "RMCleanPool_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "RMCleanTrace"
OWN = {"SameAsAlone", "IterationCount", "EachPixelOnce"}
RULE = ("every completion order of the exhaustively explored pool model (private and shared worker memory, chunk sizes) is forced on "
        "the real cleaner with a stand-in pool, plus real process pools; each pixel compared with cleaning it alone")
ASSUMPTIONS = ["the stand-in pool has multiprocessing's contract (imap in submission order, imap_unordered in completion order)"]
CASE_LIMIT = 120


def cases(ctx, model):
    rng = ctx.rng
    scheds = []
    for cfg, cs in model.items():
        for c in cs:
            # completion order of chunks -> rank per chunk
            rank = [0] * len(c["order"])
            for pos, k in enumerate(c["order"]): rank[k - 1] = pos
            s = dict(kind="isolated" if c["private"] else "shared", chunk=c["chunk"], order=rank)
            if s not in scheds: scheds.append(s)
    rng.shuffle(scheds)
    shapes = [(), (1,), (2,), (5,), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (4, 2), (2, 2), (3, 3), (2, 5)]
    per = 6
    n = max(70, (len(scheds) + per - 1) // per) if ctx.quick else max(600, len(scheds) // per * 3)
    for i in range(n):
        d = rand_cube(rng, shapes)
        d["op"] = "pool"; d["usemsk"] = 0
        if d["limit"] < 6: d["limit"] = 9
        d["pools"] = [dict(kind="serial", chunk=0, order=[])] + [scheds[(i * per + j) % len(scheds)] for j in range(per)]
        if i % 9 == 0:
            d["pools"].append(dict(kind="multi", procs=rng.choice([2, 3]), chunk=rng.choice([0, 1, 2, 3]), order=[]))
        yield d
