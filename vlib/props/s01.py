from .. import core
from ..check import Check, Part
from .. import lattice as L
from .. import conds
from .q01 import settings, orders

# coordinates that single precision represents exactly, so that files give the same geometry
EXACT = [dict(), dict(lower=[-2.0, 4.0, 8.0], h=[0.5, 1.0, 2.0]), dict(lower=[64.0, -32.0, 0.0], h=[8.0, 4.0, 16.0])]


def gen(rng, tier):
    num = 260 if tier == "quick" else 3000
    out = []
    for b in core.behaviours("ModelHistoryGen.tla", "ModelHistorySim.cfg", num, 13, core.SEED):
        s = L.body_scenario(rng, "hist", mx=3, total=12, kuhn=0.2, mode=rng.choice([None, "conf"]))
        for k in ("lower", "h"):
            s.pop(k, None)
        s.update(rng.choice(EXACT))
        s["conds"] = conds.conditions(rng, s["n"], s["U"], 2, 2)
        s["p"] = orders(rng, 2)
        s["residual"] = 1e-8
        s["min_tri"] = rng.choice([1, 30])
        settings(rng, s)
        s["method"] = "Gauss"
        if rng.random() < 0.3:
            s["method"] = rng.choice(["GGQ_Optimal", "GGQ_Reduced1"])
            s["p"] = [2, 2, 2]
            s["grid"] = "b_spline_grid"
            s.pop("uvw", None)
        s["write"] = b["wr"]
        s["ascii"] = 0
        s["threads"] = rng.choice([1, 1, 2])
        s["ops"] = b["ops"] + [dict(op="snap"), dict(op="files")]
        out.append(s)
    return out


def corrupt(rng, s, o):
    snaps = [k for k, op in enumerate(s["ops"]) if op["op"] == "snap"]
    r = o["r"][rng.choice(snaps)]
    k = rng.randrange(7)
    if k == 0:
        q = o["r"][rng.randrange(len(o["r"]))]
        q["st"] = -q["st"]
    elif k == 1:
        r["info"][rng.randrange(5)] += 10
    elif k == 2:
        r["time"][rng.randrange(4)] ^= 1
    elif k == 3:
        r["held"][1] += 1
    elif k == 4:
        o["unchanged"] = 0
    elif k == 5:
        r["ninfos"] += 1
    else:
        o["r"][-1]["files"].append("x")
    return o


CHECK = Check("S01", [Part("histories", "TraceS01.tla", gen, corrupt)],
              models=[dict(module="ModelHistoryGen.tla")],
              assumptions=["closed solids on an integer lattice", "coordinates exact in single precision"])
