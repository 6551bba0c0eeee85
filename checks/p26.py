"""P26: simulated spectra and data sets of catalogued sources."""
from simlib import *
SPEC = [("SimulateMC", "SimulateMC_quick.cfg"), ("SimulateMC", "SimulateMC_thorough.cfg", {"tier": "thorough", "workers": 8})]
TRACE = "SimulateTrace"
CASE_LIMIT = 200
RULE = ("sources built by the specification component by component, random catalogues, frequency ranges, flags, noise templates, beams and pixel grids; spectra from the functions (compared with the QU-fitting models of the "
        "same source), ASCII data sets from the tool's command line and function, and FITS cubes")
ASSUMPTIONS = ["frequencies are whole MHz", "random noise is judged within six standard deviations", "cube fields are centred on latitude zero"]


def cases(ctx, model):
    rng = ctx.rng
    k = 1 if ctx.quick else 14
    for cfg, cs in model.items():
        cs = rng.sample(cs, min(len(cs), 150 * k))
        for c in cs: yield spec_case(rng, c)
        for i in range(0, len(cs) - 2, 6): yield cat_case(rng, cs[i:i + 2])
    for fn, m in ((spec_case, 400), (cat_case, 140), (cube_case, 120)):
        for _ in range(m * k): yield fn(rng)
    for _ in range(12 * k): yield cube_case(rng, "noise")
