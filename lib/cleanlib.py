"""Lattice instances of RM-CLEAN and their execution on RMutils.util_RM."""
import math, pickle
import numpy as np
from vlib import fx, cxa, NAN
import RMutils.util_RM as U

S = 100000.0
NOWIN = 2000000


def unit(inp):
    """fluxes may come in any unit: a power of two, so that the arithmetic scales exactly"""
    return S * 2.0 ** inp.get("pow", 0)


def to_c(a, dt, s=S):
    return np.array([complex(np.nan, np.nan) if x[0] == NAN else complex(x[0] / s, x[1] / s) for x in a], dtype=dt)


def grids(n, n2, c, dphi, off):
    """depth grids: phi2 spans n2 samples, phi the n central ones"""
    pad = (n2 - n) // 2
    phi = (np.arange(n) + off) * dphi
    phi2 = (np.arange(n2) - pad + off) * dphi
    return phi.astype("float64"), phi2.astype("float64")


def state(clean, cc, it, resid, s=S):
    return {"resid": cxa(resid, s), "cc": cxa(cc, s), "clean": cxa(clean, s), "iter": int(it),
            "amp": [fx(abs(v), s) for v in resid]}


def one(inp, limit, dirty, r, width, phi, phi2):
    nd = inp.get("nd", 1)
    d, rr = dirty.copy(), r.copy()
    if nd == 1:
        fw = np.array(width) if inp.get("fw0") else width
    elif nd == 2:
        d, rr = d[:, None], rr[:, None]; fw = np.array([width])
    else:
        d, rr = d[:, None, None], rr[:, None, None]; fw = np.array([[width]])
    args = [d, rr, phi, phi2]
    bef = [a.copy() for a in args]
    kw = {}
    kw["window"] = np.nan if inp["window"] == NOWIN else inp["window"] / unit(inp)
    res = U.do_rmclean_hogbom(d, phi, rr, phi2, fw, inp["cutoff"] / unit(inp), maxIter=limit, gain=inp["gain"] / S,
                              nBits=inp.get("nbits", 64), log=lambda *a, **k: None, **kw)
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))
    ok = all(np.asarray(x).size == len(phi) for x in (res.cleanFDF, res.ccArr, res.residFDF)) and np.asarray(res.iterCountArr).size == 1
    return res, un, ok


def run_history(inp):
    n, n2 = len(inp["dirty"]), len(inp["r"])
    phi, phi2 = grids(n, n2, inp["c"], inp["dphi"], inp["off"])
    dt = "complex%d" % (2 * inp.get("nbits", 64))
    dirty, r = to_c(inp["dirty"], dt, unit(inp)), to_c(inp["r"], dt)
    width = inp["f2"] / 10.0 * inp["dphi"]
    steps, un, ok = [], True, True
    for k in range(inp["limit"] + 1):
        res, u, o = one(inp, k, dirty, r, width, phi, phi2)
        un &= u; ok &= o
        if not o:
            break
        steps.append(state(np.ravel(res.cleanFDF), np.ravel(res.ccArr), np.ravel(res.iterCountArr)[0], np.ravel(res.residFDF), unit(inp)))
    return {"shape": bool(ok), "untouched": bool(un), "steps": steps}


class StandInPool:
    """Executes tasks in a prescribed completion order; workers have private memory unless shared."""
    def __init__(self, order, isolated):
        self.order, self.isolated, self.done = order, isolated, 0

    def _run(self, func, tasks, chunksize, star=False):
        tasks = list(tasks)
        chunks = [tasks[i:i + chunksize] for i in range(0, len(tasks), chunksize)]
        keys = [(self.order[i % len(self.order)], i) for i in range(len(chunks))] if self.order else [(i, i) for i in range(len(chunks))]
        res = [None] * len(chunks)
        completion = [i for _, i in sorted(keys)]
        for i in completion:
            f, ch = (pickle.loads(pickle.dumps((func, chunks[i]))) if self.isolated else (func, chunks[i]))
            r = [f(*t) if star else f(t) for t in ch]
            res[i] = pickle.loads(pickle.dumps(r)) if self.isolated else r
            self.done += len(ch)
        return [x for c in res for x in c], [x for i in completion for x in res[i]]

    def imap(self, func, it, chunksize=1):
        return iter(self._run(func, it, chunksize or 1)[0])

    def imap_unordered(self, func, it, chunksize=1):
        return iter(self._run(func, it, chunksize or 1)[1])

    def map(self, func, it, chunksize=1, callback=None):
        return self._run(func, it, chunksize or 1)[0]

    def starmap(self, func, it, chunksize=1):
        return self._run(func, it, chunksize or 1, star=True)[0]

    def map_async(self, func, it, chunksize=1, **k):
        out = self._run(func, it, chunksize or 1)[0]
        class R:
            def get(self, *a): return out
            def wait(self, *a): pass
            def ready(self): return True
        return R()

    def apply_async(self, func, args=(), kwds={}, **k):
        out = func(*args, **kwds)
        class R:
            def get(self, *a): return out
        return R()

    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def wait(self): pass
    def is_master(self): return True
    size = 3
    def __enter__(self): return self
    def __exit__(self, *a): pass


def cube_arrays(inp):
    pix = inp["pix"]
    n, n2 = len(pix[0]["dirty"]), len(pix[0]["r"])
    dt = "complex%d" % (2 * inp.get("nbits", 64))
    phi, phi2 = grids(n, n2, inp["c"], inp["dphi"], inp["off"])
    shp = tuple(inp["shape"])
    d = np.array([to_c(p["dirty"], dt, unit(inp)) for p in pix]).T.reshape((n,) + shp).copy()
    r = np.array([to_c(p["r"], dt) for p in pix]).T.reshape((n2,) + shp).copy()
    w = np.array([p["f"] * inp["dphi"] if p["f"] else p.get("f2", 30) / 10.0 * inp["dphi"] for p in pix], dtype=float).reshape(shp)
    return d, r, w, phi, phi2


def clean_cube(inp, d, r, w, phi, phi2, pool=None, chunksize=None, limit=None, msk=None):
    kw = {"window": np.nan if inp["window"] == NOWIN else inp["window"] / unit(inp)}
    if msk is not None:
        kw["mskArr"] = msk
    return U.do_rmclean_hogbom(d, phi, r, phi2, w, inp["cutoff"] / unit(inp), maxIter=inp["limit"], gain=inp["gain"] / S,
                               nBits=inp.get("nbits", 64), log=lambda *a, **k: None, pool=pool, chunksize=chunksize, **kw)


def unpack(res, n, npix, shp, s=S):
    """per pixel states; None if the shapes are wrong"""
    sq = tuple(k for k in shp if k != 1)
    for a in (res.cleanFDF, res.ccArr, res.residFDF):
        if tuple(k for k in np.shape(a) if k != 1) != tuple(k for k in (n,) + shp if k != 1):
            return None
    if tuple(k for k in np.shape(res.iterCountArr) if k != 1) != sq:
        return None
    c, m, r = (np.asarray(a).reshape(n, npix) for a in (res.cleanFDF, res.ccArr, res.residFDF))
    it = np.asarray(res.iterCountArr).reshape(npix)
    return [state(c[:, p], m[:, p], it[p], r[:, p], s) for p in range(npix)]


def run_cube(inp):
    d, r, w, phi, phi2 = cube_arrays(inp)
    args = [d, r, w, phi, phi2]
    bef = [a.copy() for a in args]
    shp = tuple(inp["shape"])
    msk = None if not inp["usemsk"] else np.array(inp["msk"]).reshape(shp).astype(bool if inp["usemsk"] == 1 else int)
    res = clean_cube(inp, *args, msk=msk)
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))
    px = unpack(res, len(phi), len(inp["pix"]), shp, unit(inp))
    return {"shape": px is not None, "untouched": bool(un), "pix": px or []}


def run_pool(inp):
    d, r, w, phi, phi2 = cube_arrays(inp)
    args = [d, r, w, phi, phi2]
    bef = [a.copy() for a in args]
    shp = tuple(inp["shape"]); n = len(phi); npix = len(inp["pix"])
    solo, ok = [], True
    dd, rr, ww = d.reshape(n, npix), r.reshape(len(phi2), npix), w.reshape(npix)
    for p in range(npix):
        res = clean_cube(inp, dd[:, p].copy(), rr[:, p].copy(), ww[p], phi, phi2)
        px = unpack(res, n, 1, (), unit(inp))
        ok &= px is not None
        solo.append(px[0] if px else None)
    runs, tasks = [], []
    for spec in inp["pools"]:
        if spec["kind"] == "serial":
            pool = None
        elif spec["kind"] == "multi":
            from schwimmbad import MultiPool
            pool = MultiPool(processes=spec["procs"])
        else:
            pool = StandInPool(spec["order"], spec["kind"] == "isolated")
        res = clean_cube(inp, *args, pool=pool, chunksize=spec["chunk"] or None)
        if spec["kind"] == "multi":
            pool.terminate()
        tasks.append(pool.done if isinstance(pool, StandInPool) else -1)
        px = unpack(res, n, npix, shp, unit(inp))
        ok &= px is not None
        runs.append(px or [])
    un = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, bef))
    return {"shape": bool(ok), "untouched": bool(un), "solo": solo, "runs": runs, "tasks": tasks}


def execute(inp):
    return {"history": run_history, "cube": run_cube, "pool": run_pool}[inp["op"]](inp)


# ---------------------------------------------------------------- generators
def rand_r(rng, n):
    """spread function: peak 1 at c, |r|<1 elsewhere; n2 and c as a doubled grid allows"""
    n2 = 2 * n + (n % 2) + 2 * rng.choice([0, 0, 0, 1])
    c = rng.randint(n, n2 - n + 1) if rng.random() < .4 else (n2 - n) // 2 + n // 2 + 1
    r = []
    wid = rng.choice([1, 2, 3])
    for k in range(1, n2 + 1):
        d = abs(k - c)
        if d == 0: r.append([100000, 0])
        else:
            a = int(95000 * math.exp(-(d / wid) ** 2 * .7)) if rng.random() < .7 else rng.randint(0, 60000)
            th = rng.uniform(0, 2 * math.pi) if rng.random() < .5 else .3 * (k - c)
            r.append([int(a * math.cos(th)), int(a * math.sin(th))])
    return r, c, n2


def rand_dirty(rng, n, r, c):
    kind = rng.random()
    amp = rng.choice([30000, 100000, 300000])
    if kind < .35:
        return [[rng.randint(-amp, amp), rng.randint(-amp, amp)] for _ in range(n)]
    # sources convolved with the spread function, incl. at the ends
    out = [[rng.randint(-500, 500), rng.randint(-500, 500)] for _ in range(n)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.choice([1, n, rng.randint(1, n)])
        th = rng.uniform(0, 6.28); a = amp * rng.uniform(.2, 1)
        z = complex(a * math.cos(th), a * math.sin(th)) / 1e5
        for k in range(1, n + 1):
            v = z * complex(*r[c + k - i - 1])
            out[k - 1][0] += int(v.real); out[k - 1][1] += int(v.imag)
    return out


def amax(d):
    return max(int(math.hypot(*x)) for x in d if x[0] != NAN) if any(x[0] != NAN for x in d) else 0


def rand_history(rng, thorough=False):
    n = rng.choice([1, 2, 3, 4, 5, 7, 9]) if not thorough else rng.choice([1, 2, 3, 5, 7, 9, 11, 15])
    if n == 1: n = 2
    r, c, n2 = rand_r(rng, n)
    dirty = rand_dirty(rng, n, r, c)
    m = amax(dirty)
    cutoff = int(m * rng.choice([.05, .2, .5, .8, .95, 1.1])) + 1
    window = NOWIN if rng.random() < .3 else int(cutoff * rng.choice([.1, .4, .8, 1.3])) + 1
    f = rng.choice([1, 2, 3, 4, 6, 12])
    f2 = 10 * f
    if rng.random() < .4:
        f = 0; f2 = rng.randint(5, 10 * n)
    return dict(op="history", dirty=dirty, r=r, c=c, cutoff=cutoff, window=window, gain=rng.choice([10000, 30000, 50000, 100000]),
                f=f, f2=f2, limit=rng.choice([3, 8, 12]), dphi=rng.choice([1.0, 2.5, 17.0, 0.3]), off=rng.choice([-(n // 2), 0, 5, -n]),
                nd=rng.choice([1, 2, 3]), nbits=rng.choice([64, 64, 32]), pow=rng.choice([0, 0, 20, -8]))


def rand_cube(rng, shapes, npmax=12):
    shp = rng.choice(shapes)
    npix = int(np.prod(shp))
    n = rng.choice([3, 5, 7])
    r, c, n2 = rand_r(rng, n)
    pix = []
    for p in range(npix):
        for _ in range(50):
            rp, cp, n2p = rand_r(rng, n)
            if (cp, n2p) == (c, n2): break
        else:
            rp = r
        if rng.random() < .3: rp = r
        d = rand_dirty(rng, n, rp, c)
        q = rng.random()
        if q < .12: d = [[NAN, NAN]] * n
        elif q < .3: d = [[x // 40, y // 40] for x, y in d]
        elif q < .36: d = [[0, 0]] * n
        pix.append(dict(dirty=d, r=rp, f=rng.choice([1, 2, 3, 4, 6]), amp0=[0 if x[0] == NAN else int(math.hypot(*x)) for x in d]))
    ms = sorted(amax(p["dirty"]) for p in pix)
    cutoff = max(50, int(ms[-1] * rng.choice([.05, .2, .5])))
    # keep every pixel clear of the cutoff by more than the logging precision
    while any(abs(a - cutoff) < 10 for p in pix for a in p["amp0"]): cutoff += 21
    window = NOWIN if rng.random() < .4 else int(cutoff * rng.choice([.2, .5, .9])) + 1
    usemsk = rng.choice([0, 0, 1, 2])
    msk = [1] * npix if not usemsk else [rng.choice([0, 1, 1]) for _ in range(npix)]
    return dict(op="cube", pix=pix, c=c, shape=list(shp), cutoff=cutoff, window=window, gain=rng.choice([10000, 30000, 50000]),
                limit=rng.choice([0, 1, 6, 15]), usemsk=usemsk, msk=msk, dphi=rng.choice([1.0, 2.5, 0.3]), off=-(n // 2), nbits=rng.choice([64, 64, 32]), pow=rng.choice([0, 0, 20, -8]))


def edge_history(rng):
    """one strong source at an end of the axis, a wide window, and a second structure near it"""
    n = rng.choice([5, 7, 9])
    while True:
        r, c, n2 = rand_r(rng, n)
        if n <= c <= n2 - n + 1: break
    i = rng.choice([1, 1, 2, n - 1, n, n])
    d = []
    for k in range(1, n + 1):
        v = complex(*r[c + k - i - 1]) * .9
        d.append([int(v.real) + rng.randint(-25000, 25000), int(v.imag) + rng.randint(-25000, 25000)])
    m = amax(d)
    return dict(op="history", dirty=d, r=r, c=c, cutoff=int(m * rng.choice([.6, .75])), window=int(m * rng.choice([.02, .05, .1])),
                gain=rng.choice([30000, 50000]), f=rng.choice([3, 4, 6]), f2=rng.choice([30, 50, 70, 90]), limit=12, dphi=1.0, off=0, nd=1, nbits=64) | {"f": 0}
