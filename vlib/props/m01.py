from ..check import Check, Part
from .. import lattice as L
from .c02 import gen_large, corrupt_crowd
from .. import conds
from .q01 import settings, orders


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(540 * k):
        s = L.body_scenario(rng, "model", mx=3, total=18, kuhn=0.2, mode=rng.choice([None, "conf"]))
        s["conds"] = conds.conditions(rng, s["n"], s["U"], 3, 0)
        s["p"] = orders(rng, 2)
        s["residual"] = rng.choice([1e-10, 1e-6])
        s["min_tri"] = rng.choice([1, 60])
        if rng.random() < 0.2:
            s["min_vol"] = rng.choice([0.1, 0.6])
        settings(rng, s)
        s["method"] = rng.choice(["Gauss", "Gauss_Reduced1"])
        if rng.random() < 0.35:
            s["method"] = rng.choice(["GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"])
            s["p"] = [2, 2, 2]
            s["grid"] = "b_spline_grid"
            s.pop("uvw", None)
        if rng.random() < 0.2:
            s["alpha"] = rng.choice([1.0, 0.25])
        s["threads"] = rng.choice([1, 1, 3])
        if i >= 500 * k:        # the surface in many small triangles
            s["fine"] = rng.choice([1, 2, 3])
        out.append(s)
    return out


def corrupt(rng, s, o):
    i = o["info"]
    k = rng.choice(["closed", "volume", "active", "trimmed", "full", "inactive", "points", "rep", "perc", "ppf", "ppt", "conds"])
    if k == "conds":
        if not o["conds"]:
            return None
        o["conds"][-1]["iid"] += 1
        return o
    i[k] += 100 if k in ("rep", "volume", "perc", "ppf", "ppt") else 1
    return o


CHECK = Check("M01", [Part("models", "TraceM01.tla", gen, corrupt),
                      Part("large grids", "TraceC02.tla", gen_large, corrupt_crowd, threads=8, nproc=1)],
              assumptions=["closed solids on an integer lattice"])
