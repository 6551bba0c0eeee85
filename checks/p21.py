"""P21: QU-fit likelihood, statistics and reported angles."""
from qufitlib import *
SPEC = [("QUFitMC", "QUFitMC_quick.cfg"), ("QUFitMC", "QUFitMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "QUFitTrace"
CASE_LIMIT = 120
RULE = ("posteriors placed at every concentrated position on the circle reached by the specification, and random posteriors, data, flags, Stokes I, models (built-in, "
        "local, partly fixed), handed to the real tool by a stand-in sampler that returns a real bilby result; reported medians, errors, chi^2, information criteria "
        "and files judged against the specification, which evaluates model, chi^2 and quantiles itself")
ASSUMPTIONS = ["the sampler itself (bilby/dynesty) is replaced", "angles are judged for posteriors inside a quarter of the 180-degree circle",
               "the log-likelihood is judged up to a constant that depends on the errors only"]


def cases(ctx, model):
    rng = ctx.rng
    for cfg, cs in model.items():
        for c in rng.sample(cs, min(len(cs), 130 if ctx.quick else 700)):
            yield fit_case(rng, m=rng.choice([1, 1, 2, 11, 5]), ang=c["samples"] * rng.choice([1, 2, 5]), hc=c["hc"])
    for _ in range(130 if ctx.quick else 3000): yield fit_case(rng)
    for _ in range(150 if ctx.quick else 4000): yield like_case(rng)
    for _ in range(30 if ctx.quick else 200): yield which_case(rng)
    for i in range(1 if ctx.quick else 6):
        d = fit_case(rng); d["plots"] = True; yield d
