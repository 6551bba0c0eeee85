"""QU-fitting models: parameter vectors on the lattice of spec/QUModels.tla, run on the built-in models."""
import math, warnings
import numpy as np
from vlib import fx, fxa, cxa, NAN
import bilby
from RMtools_1D.do_QUfit_1D_mnest import load_model

UL = 5e-4
MODELS = (1, 2, 3, 4, 5, 6, 7, 11, 12, 111)
PARS = {1: ["fracPol", "psi0_deg", "RM_radm2"], 2: ["fracPol", "psi0_deg", "RM_radm2", "sigmaRM_radm2"],
        3: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM_radm2"],
        4: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM1_radm2", "sigmaRM2_radm2"],
        5: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2"],
        6: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "deltaRM1_radm2", "deltaRM2_radm2"],
        7: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2", "sigmaRM_radm2"],
        11: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2"],
        12: ["fracPol", "psi0_deg", "RM_screen", "deltaRM_radm2", "sigmaRM_radm2", "sigmaRM_radm2_FG"],
        111: ["fracPol1", "fracPol2", "fracPol3", "psi01_deg", "psi02_deg", "psi03_deg", "RM1_radm2", "RM2_radm2", "RM3_radm2"]}


def uphi(g): return g * math.pi / (360000 * UL)


def real(v, g):
    """integers to physical parameters"""
    return {k: (x / 1000.0 if k.startswith(("fracPol", "psi")) else x * uphi(g)) for k, x in v.items()}


class Seen(dict):
    """a parameter dictionary that remembers what was asked for"""
    def __init__(self, *a):
        super().__init__(*a); self.used = set()
    def __getitem__(self, k):
        self.used.add(k); return super().__getitem__(k)
    def get(self, k, d=None):
        self.used.add(k); return super().get(k, d)


def evaluate(m, v, inp):
    mod = load_model(m)
    lam = np.array([x * UL for x in inp["lam"]], dtype=inp["dtype"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return mod.model(real(v, inp["g"]), lam), mod, lam


def run_value(inp):
    p = real(inp["v"], inp["g"])
    if inp["npf"]: p = {k: np.float64(x) for k, x in p.items()}
    p.update({"delta_RM1_RM2_radm2": 1e9, "sum_p1_p2": -5.0} if inp["junk"] else {})
    mod = load_model(inp["model"])
    lam = np.array([x * UL for x in inp["lam"]], dtype=inp["dtype"])
    q, l0 = dict(p), lam.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = mod.model(p, lam)
        e = np.concatenate([np.atleast_1d(mod.model(p, lam[j:j + 1])) for j in range(len(lam))])
        r = mod.model(p, lam[::-1].copy())[::-1]
    if a.shape != lam.shape or r.shape != lam.shape or e.shape != lam.shape: return dict(exc="", shape=False)
    near = lambda x, y: np.allclose(x, y, atol=1e-5 if inp["dtype"] == "float32" else 1e-9, equal_nan=True)
    return dict(exc="", shape=True, val=cxa(a, 1e5), each=bool(near(a, e) and near(a, r)), untouched=p == q and np.array_equal(l0, lam))


def run_alike(inp):
    return dict(exc="", vals=[cxa(evaluate(w["model"], w["v"], inp)[0], 1e5) for w in inp["ways"]])


def run_prior(inp):
    m = inp["model"]
    mod = load_model(m)
    pri = mod.priors
    keys, cons = [], []
    for k, pr in pri.items():
        if type(pr).__name__ == "Constraint":
            cons.append(k); continue
        keys.append(dict(name=k, min=fx(pr.minimum, 1000), max=fx(pr.maximum, 1000), wrap=pr.boundary or "", label=pr.latex_label or ""))
    d = Seen({k["name"]: 0.3 for k in keys})
    mod.model(d, np.linspace(.01, .1, 7))
    bilby.core.utils.random.seed(inp["seed"])
    P = pri if isinstance(pri, bilby.core.prior.PriorDict) else bilby.core.prior.PriorDict(dict(pri))
    draws = [P.sample() for _ in range(inp["n"])]
    # the density the sampler sees, at points that do not respect the constraints
    free = [k["name"] for k in keys]
    draws = [{k: fx(s[k], 1000) for k in free} for s in draws]
    rm = [k for k in free if k.startswith("RM")]
    spread = True
    if len(rm) > 1:
        U = [{k: pri[k].sample() for k in free} for _ in range(200)]
        for s in U:
            c = P.conversion_function(dict(s)) if hasattr(P, "conversion_function") else s
            ok = all(pri[k].minimum < c[k] < pri[k].maximum for k in cons)
            z = [s[k] for k in sorted(rm)]
            want = all(a > b for a, b in zip(z, z[1:])) and sum(s[k] for k in free if k.startswith("frac")) < 1
            spread &= ok == want and (P.prob(s) > 0) == want
    return dict(exc="", keys=keys, used=sorted(d.used), draws=draws, spread=bool(spread))


def execute(inp):
    return {"value": run_value, "alike": run_alike, "prior": run_prior}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
def lams(rng):
    n = rng.randint(1, 6)
    lo = rng.choice([1, 20, 60, 150])
    return sorted(rng.sample(range(lo, lo + rng.choice([10, 80, 300])), n), reverse=rng.random() < .5)


def vector(rng, m):
    """a parameter vector of model m, often on the boundary of the prior"""
    v = {}
    amax = {"RM": 60000, "de": 5700, "si": 5700}
    for k in PARS[m]:
        if k.startswith("fracPol"): v[k] = rng.choice([0, 1000, rng.randint(0, 700), rng.randint(1, 60)]) if rng.random() < .5 else rng.randint(0, 1000)
        elif k.startswith("psi"): v[k] = rng.choice([0, 180000, 90000, 45000, rng.randint(0, 180000), rng.randint(0, 180000), rng.randint(-200000, 400000)])
        elif k.startswith("RM"): v[k] = rng.choice([0, rng.randint(-300, 300), rng.randint(-5000, 5000), rng.randint(-60000, 60000)])
        else: v[k] = 2 * (rng.choice([0, 0, 1, rng.randint(1, 10), rng.randint(5, 150), rng.randint(100, 2850)]))
        if k.startswith("delta") and rng.random() < .4: v[k] = -v[k]
    return v


def value_case(rng, m=None, v=None):
    m = m or rng.choice(MODELS)
    return dict(op="value", model=m, v=v or vector(rng, m), g=1, lam=lams(rng), dtype=rng.choice(["float64"] * 4 + ["float32"]),
                npf=rng.random() < .5, junk=rng.random() < .3, tol=0)


def fix_tol(d):
    th = max([abs(x) for k, x in (d.get("v") or d["ways"][0]["v"]).items() if k.startswith(("RM", "de"))] + [0]) * max(d["lam"])
    d["tol"] = int(th * 3.5e-2 * 1.2e-7 * 1e5 / 2) if d["dtype"] == "float32" else 0
    return d


def express(src, m):
    """the parameter vector of model m that describes the source"""
    two = len(src) > 1
    v = {}
    for i, c in enumerate(src, 1):
        n = str(i) if two else ""
        v["fracPol" + n] = c["p"]; v["psi0%s_deg" % n] = c["psi"]
        v["RM_screen" if m == 12 else "RM%s_radm2" % n] = c["rm"]
    c = src[0]
    if m == 2: v["sigmaRM_radm2"] = c["sext"]
    if m == 3: v["sigmaRM_radm2"] = c["sext"]
    if m == 4: v["sigmaRM1_radm2"], v["sigmaRM2_radm2"] = c["sext"], src[1]["sext"]
    if m == 5: v["deltaRM_radm2"] = c["delta"]
    if m == 6: v["deltaRM1_radm2"], v["deltaRM2_radm2"] = c["delta"], src[1]["delta"]
    if m in (7, 12): v["deltaRM_radm2"], v["sigmaRM_radm2"] = c["delta"], c["sint"]
    if m == 12: v["sigmaRM_radm2_FG"] = c["sext"]
    assert set(v) == set(PARS[m]), (m, v)
    return v


def alike_case(rng, src, models):
    ways, sign = [], []
    for m in models:
        v = express(src, m)
        ways.append(dict(model=m, v=v)); sign.append(1)
        kind = rng.choice(["turn", "back", "flip", "swap", "pad"])
        w = dict(v)
        ang = [k for k in w if k.startswith("psi")]
        if kind == "turn": w[rng.choice(ang)] += 180000
        elif kind == "back": w[rng.choice(ang)] -= 180000
        elif kind == "flip":
            for k in ang: w[k] += 90000
        elif kind == "swap" and len(src) > 1: w = express(list(reversed(src)), m)
        elif kind == "pad" and m in (1, 11):
            big = {1: 11, 11: 111}[m]
            n = len(src) + 1
            s = src + [dict(p=0, psi=rng.randint(0, 180000), rm=rng.randint(-900, 900), delta=0, sint=0, sext=0)]
            rng.shuffle(s)
            ways.append(dict(model=big, v=express(s, big))); sign.append(1); continue
        ways.append(dict(model=m, v=w)); sign.append(-1 if kind == "flip" else 1)
    return dict(op="alike", src=src, ways=ways, sign=sign, g=1, lam=lams(rng), dtype="float64", tol=0)
