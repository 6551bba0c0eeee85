"""QU fitting with a stand-in sampler: the posterior is chosen by the specification, everything after it is the tool's."""
import glob, io, json, math, os, sys, contextlib, warnings, inspect
import numpy as np
from vlib import fx, fxa, NAN
from cubelib import Scratch, cli
import qulib
from qulib import PARS, UL, uphi, real, vector
import bilby, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import RMtools_1D.do_QUfit_1D_mnest as QF

C = 299792458.0
ANG = ("psi0_deg", "psi01_deg", "psi02_deg", "psi03_deg")


def unit(k, g): return 1 / 1000.0 if k.startswith(("fracPol", "psi")) else uphi(g)


def vec(inp, k):
    return real({n: (inp["fixed"][n] if n in inp["fixed"] else inp["samples"][n][k]) for n in inp["samples"]}, inp["g"])


def data(inp):
    lam = np.array(inp["lam"]) * UL
    a = lambda k: np.array([np.nan if x == NAN else x / 1e5 for x in inp[k]])
    return lam, a("q"), a("u"), a("dq"), a("du")


LOCAL = '''import bilby, numpy as np
%s
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("orig", _o.path.join(%r, "models_ns", "m%d.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
priors = _m.priors
def model(pDict, lamSqArr_m2):
    return %r * _m.model(pDict, lamSqArr_m2)
for _k, _v in %r.items():
    priors[_k] = bilby.prior.DeltaFunction(_v, name=_k, latex_label="$fixed_{%%s}$" %% _k)
'''


def put_local(inp):
    """a model in the working directory: a scaled, possibly partly fixed version of a built-in one"""
    os.makedirs("models_ns", exist_ok=True)
    fixed = real(inp["fixed"], inp["g"])
    with open("models_ns/m%d.py" % inp["num"], "w") as f:
        f.write(LOCAL % ("", os.path.dirname(QF.__file__), inp["model"], inp["gain"] / 1000.0, fixed))


def parset(lk, v):
    keep = lk.parameters
    lk.parameters = dict(v)
    if "parameters" in inspect.signature(lk.log_likelihood).parameters: r = lk.log_likelihood(dict(v))
    else: r = lk.log_likelihood()
    lk.parameters = keep
    return float(r)


@contextlib.contextmanager
def standin(inp, rec):
    """bilby's sampler and corner plot replaced; a real bilby Result is returned"""
    def run_sampler(likelihood=None, priors=None, label="label", outdir="outdir", sampler="dynesty", **kw):
        rec.update(label=label, outdir=outdir, sampler=sampler, kw=kw)
        rec["like"] = [parset(likelihood, vec(inp, k - 1)) for k in inp["at"]]
        P = priors if isinstance(priors, bilby.core.prior.PriorDict) else bilby.core.prior.PriorDict(dict(priors))
        free = [k for k, p in P.items() if type(p).__name__ not in ("Constraint", "DeltaFunction")]
        fixd = [k for k, p in P.items() if type(p).__name__ == "DeltaFunction"]
        if inp["keyorder"]: free = [free[i % len(free)] for i in range(inp["keyorder"], inp["keyorder"] + len(free))]
        S = np.array([[inp["samples"][k][i] * unit(k, inp["g"]) for k in free] for i in range(len(inp["lnl"]))])
        r = bilby.core.result.Result(label=label, outdir=outdir, sampler=sampler, search_parameter_keys=list(free), fixed_parameter_keys=fixd,
                                     priors=P, samples=S, log_likelihood_evaluations=np.array(inp["lnl"]) / 1000.0,
                                     log_evidence=inp["ev"] / 1000.0, log_evidence_err=inp["dev"] / 1000.0, nested_samples=None)
        r.samples_to_posterior(likelihood=likelihood, priors=P)
        return r
    saved = [(bilby, "run_sampler", bilby.run_sampler), (bilby.core.result.Result, "plot_corner", bilby.core.result.Result.plot_corner)]
    bilby.run_sampler = run_sampler
    bilby.core.result.Result.plot_corner = lambda self, *a, **k: plt.figure(figsize=(1, 1))
    if not inp["plots"]:
        for n in ("plot_Ipqu_spectra_fig",):
            if hasattr(QF, n): saved.append((QF, n, getattr(QF, n))); setattr(QF, n, lambda *a, **k: None)
    try:
        yield
    finally:
        for o, n, v in saved: setattr(o, n, v)
        plt.close("all")


def run_fit(inp):
    with Scratch("qufit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if inp["num"] != inp["model"] or inp["gain"] != 1000 or inp["fixed"]: put_local(inp)
        lam, q, u, dq, du = data(inp)
        f = C / np.sqrt(lam)
        I = np.ones_like(f)
        if inp["stokesI"]: I = inp["I0"] * (f / f[0]) ** inp["alpha"]
        cols = [f, I, q * I, u * I, I * 0.01, dq * I, du * I] if inp["stokesI"] else [f, q, u, dq, du]
        cols = [np.array(c) for c in cols]
        bef = [c.copy() for c in cols]
        rec = {}
        pre = inp["prefix"]
        if os.path.dirname(pre): os.makedirs(os.path.dirname(pre), exist_ok=True)
        with standin(inp, rec):
            if inp["cli"]:
                np.savetxt(pre + ".dat", np.array(cols).T, fmt="%.17g")
                argv = ["qufit", pre + ".dat", "-m", inp["num"], "--sampler", inp["sampler"], "--ncores", inp["ncores"], "--nlive", inp["nlive"], "-o", 1] + (["-v"] if inp["verbose"] else [])
                with contextlib.redirect_stdout(io.StringIO()): cli(QF.main, argv)
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    QF.run_qufit(cols, inp["num"], polyOrd=1, nBits=64, prefixOut=pre, sampler=inp["sampler"], ncores=inp["ncores"], nlive=inp["nlive"], verbose=inp["verbose"])
        out = "%s_m%d_%s" % (pre, inp["num"], inp["sampler"])
        if not (os.path.exists(out + ".json") and os.path.exists(out + ".dat")): return dict(exc="", saved=False)
        d = json.load(open(out + ".json"))
        dat = dict(x.rstrip("\n").split("=", 1) for x in open(out + ".dat"))
        files = set(dat) == set(d) and all(str(d[k]) == dat[k] for k in d)
        nm = list(d["parNames"])
        un = [1 / unit(k, inp["g"]) for k in nm]
        pick = lambda n: [fx(v, s) for v, s in zip(d[n], un)]
        kw = rec["kw"]
        conf = rec["sampler"] == inp["sampler"] and kw.get("nlive") == inp["nlive"] and kw.get("npool") == inp["ncores"]
        ev = [k for k in d if "EVIDENCE" in k]
        e1 = [d[k] for k in ev if not k.startswith("d")][0]; e2 = [d[k] for k in ev if k.startswith("d")][0]
        return dict(exc="", saved=True, names=nm, val=pick("values"), plus=pick("errPlus"), minus=pick("errMinus"), chi=fx(d["chiSq"], 1000), chired=fx(d["chiSqRed"], 1000),
                    dof=fx(d["dof"], 1000), aic=fx(d["AIC"], 1000), aicc=fx(d["AICc"], 1000), bic=fx(d["BIC"], 1000), nfree=int(d["nFree"]), lnev=fx(e1, 1000), dlnev=fx(e2, 1000),
                    like=fxa(rec["like"], 1000), conf=bool(conf), files=bool(files), untouched=all(np.array_equal(a, b, equal_nan=True) for a, b in zip(bef, cols)))


def run_like(inp):
    with Scratch("qulike"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if inp["num"] != inp["model"] or inp["gain"] != 1000 or inp["fixed"]: put_local(inp)
        lam, q, u, dq, du = data(inp)
        _, q2, u2, _, _ = data(dict(inp, q=inp["q2"], u=inp["u2"]))
        names = list(inp["samples"])
        mk = lambda a, b: QF.lnlike_call(names, lam, a, dq, b, du, inp["num"])
        A = mk(q, u)
        like = [parset(A, vec(inp, k - 1)) for k in inp["at"]]
        again = [parset(A, vec(inp, k - 1)) for k in reversed(inp["at"])][::-1] == like
        mod = QF.load_model(inp["num"]).model
        chi = []
        for k in inp["at"]:
            v = vec(inp, k - 1)
            chi.append(QF.chisq_model(names, [v[n] for n in names], lam, q, dq, u, du, mod))
        return dict(exc="", like=fxa(like, 1000), like2=fx(parset(mk(q2, u2), vec(inp, inp["at"][0] - 1)), 1000), chi=fxa(chi, 1000), again=bool(again))


def run_which(inp):
    with Scratch("quwhich"):
        n = inp["num"]
        if inp["local"]:
            os.makedirs("models_ns")
            open("models_ns/m%d.py" % n, "w").write("import numpy as np\npriors = {}\ndef model(p, x):\n    return 7j * np.ones_like(x)\n")
        if inp["decoy"]:
            os.makedirs("models_ns", exist_ok=True)
            open("models_ns/m%d.py" % (n + 500), "w").write("priors = {}\ndef model(p, x): return 9j\n")
        x = np.linspace(.01, .1, 5)
        p = real({k: 300 for k in PARS.get(n, PARS[1])}, 1)
        who = lambda r: "local" if np.allclose(r, 7j) else "installed"
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if inp["order"]: QF.load_model(1 if n != 1 else 2)
                m = QF.load_model(n, verbose=inp["verbose"])
            frm = who(m.model(p, x))
        except SystemExit:
            return dict({"from": "exit", "likefrom": "exit"})
        L = QF.lnlike_call(list(p), x, np.zeros(5), np.ones(5), np.full(5, 7.0), np.ones(5), n)
        z = parset(L, p)
        L2 = QF.lnlike_call(list(p), x, np.zeros(5), np.ones(5), np.full(5, 107.0), np.ones(5), n)
        return {"from": frm, "likefrom": "local" if abs(z - parset(L2, p) - 25000) < 1e-6 else "installed"}


def execute(inp):
    return {"fit": run_fit, "like": run_like, "which": run_which}[inp["op"]](inp)


# ---------------------------------------------------------------- cases
def etol(m): return 6 if m in (1, 11, 111) else 60


def base(rng, m=None, ns=None, ang=None, hc=None):
    """data, model and posterior; ang: positions of the samples of one angle on a circle of hc steps"""
    m = m or rng.choice(qulib.MODELS)
    names = PARS[m]
    ns = ns or rng.choice([6, 11, 20, 26, 33, 51])
    if ang: ns = len(ang)
    even = lambda x: 2 * int(round(x / 2.0))
    truth, samples = {}, {}
    for k in names:
        if k.startswith("fracPol"): c, w = rng.randint(100, 700), rng.choice([2, 20])
        elif k.startswith("psi"): c, w = rng.choice([0, 180000, 45000, 135000, 90000, rng.randint(0, 180000), rng.randint(0, 180000)]), rng.choice([200, 4000, 9000])
        elif k.startswith("RM"): c, w = rng.choice([0, rng.randint(-3000, 3000), rng.randint(-40000, 40000)]), rng.choice([4, 60])
        else: c, w = rng.randint(60, 300), rng.choice([2, 20])
        xs = [even(rng.uniform(c - 2 * w, c + 2 * w) if rng.random() < .7 else c + rng.choice([-w, w])) for _ in range(ns)]
        if k.startswith("psi"): xs = [x % 180000 for x in xs]
        elif not k.startswith("RM"): xs = [max(0, x) for x in xs]
        truth[k], samples[k] = even(c), xs
    if ang:
        k = rng.choice([k for k in names if k.startswith("psi")])
        t = 180000 // hc
        samples[k] = [int(a * t + off) % 180000 for a, off in zip(ang, [rng.choice([0, 2])] * ns)]
        truth[k] = samples[k][0]
        if rng.random() < .5: rng.shuffle(samples[k])
    nch = rng.randint(max(8, (len(names) + 3) // 2 + 4), 15)
    lo = rng.choice([20, 60, 100])
    lam = sorted(rng.sample(range(lo, lo + 60), nch), reverse=rng.random() < .7)
    g, gain = 1, 1000
    d = dict(model=m, num=m, gain=gain, g=g, lam=lam, samples=samples, fixed={}, etol=etol(m), at=rng.sample(range(1, ns + 1), 3))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P = qulib.load_model(m).model(real(truth, g), np.array(lam) * UL)
    s = rng.choice([1500, 4000, 9000])
    d["dq"] = [int(s * rng.uniform(.6, 1.6)) for _ in lam]
    d["du"] = [int(s * rng.uniform(.6, 1.6)) for _ in lam] if rng.random() < .7 else list(d["dq"])
    noisy = lambda a, e: [int(round(x * 1e5 + rng.gauss(0, y))) for x, y in zip(a, e)]
    d["q"], d["u"] = noisy(P.real, d["dq"]), noisy(P.imag, d["du"])
    d["q2"], d["u2"] = noisy(P.real, d["dq"]), noisy(P.imag, d["du"])
    return d


def local(rng, d):
    """put the model into the working directory"""
    d["num"] = rng.choice([d["model"], 77, 1000, d["model"]])
    d["gain"] = rng.choice([500, 800])
    for k in ("q", "u", "q2", "u2"): d[k] = [x if x == NAN else x * d["gain"] // 1000 for x in d[k]]
    if rng.random() < .6:
        can = [k for k in PARS[d["model"]] if k[:8] not in ("fracPol1", "fracPol2", "fracPol3") and k[:3] not in ("RM1", "RM2", "RM3")]      # bilby cannot fix a parameter of a constraint
        for k in rng.sample(can, rng.randint(1, min(2, len(PARS[d["model"]]) - 2))):
            d["fixed"][k] = d["samples"][k][0]
    return d


def flag(rng, d):
    n = len(d["lam"])
    one = rng.random() < .5         # a channel lost in one of the two Stokes parameters only
    for j in rng.sample(range(n), rng.randint(1, 3)):
        part = rng.choice(("q", "u") if one else ("qu",))
        for k in part: d[k][j] = d[k + "2"][j] = NAN
        if rng.random() < .5:
            for k in part: d["d" + k][j] = NAN
    return d


def like_case(rng):
    d = dict(base(rng), op="like")
    if rng.random() < .3: local(rng, d)
    if rng.random() < .3: flag(rng, d)
    return d


def fit_case(rng, **kw):
    d = base(rng, **kw)
    ns = len(d["samples"][PARS[d["model"]][0]])
    if rng.random() < .4: local(rng, d)
    if rng.random() < .25: flag(rng, d)
    del d["q2"], d["u2"]
    d.update(op="fit", lnl=[rng.randint(-30000, 90000) for _ in range(ns)], ev=rng.randint(-90000, 90000), dev=rng.randint(10, 900), keyorder=0,
             plots=False, stokesI=rng.random() < .4, I0=rng.choice([1.0, .003, 40.0]), alpha=rng.choice([0, -.7, .4]),
             cli=rng.random() < .25, prefix=rng.choice(["src", "out.1", "a.dir/x_m1", "p"]), sampler=rng.choice(["dynesty", "nestle", "bilby_mcmc"]),
             ncores=rng.choice([1, 4]), nlive=rng.choice([50, 300, 777]), verbose=rng.random() < .3, ptol=0, ctol=0)
    if d["stokesI"]: d["ctol"] = 60; d["etol"] += 6
    if d["cli"]: d["etol"] += 12; d["ctol"] = 60
    return d


def which_case(rng):
    n = rng.choice([1, 2, 7, 111, 3, 12, 8, 99])
    return dict(op="which", num=n, local=rng.random() < .5, installed=n in PARS, decoy=rng.random() < .4, order=rng.random() < .5, verbose=rng.random() < .3)
