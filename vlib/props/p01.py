import json
import os
import re
from .. import core
from .. import conds
from .. import lattice as L
from ..check import Check, Part
from .d02 import PYDRV
from .q01 import settings, orders

TEXTS = ["dirichlet", "", "a \"b\"", "neumann \u00e4"]


def number(rng):
    return rng.choice([0.0, 1.0, -2.5, 1e-9, 1e12, rng.uniform(-1, 1), rng.random() * 10 ** rng.randint(-6, 6)])


def model(rng, ev):
    s = L.body_scenario(rng, ev, mx=3, total=8, kuhn=0.25)
    s["p"] = orders(rng, 2)
    s["min_tri"] = rng.choice([1, 10])
    settings(rng, s)
    s["method"] = rng.choice(["Gauss", "Gauss", "Gauss_Reduced1"])
    if min(s["p"]) >= 2 and s.get("grid", "b_spline_grid") == "b_spline_grid" and rng.random() < 0.3:
        s["method"] = rng.choice(["GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"])
    s["conds"] = conds.conditions(rng, s["n"], s["U"], 3)
    for c in s["conds"]:
        for k in ("modulus", "penalty"):
            if rng.random() < 0.5:
                c[k] = float(number(rng))
        for k in ("value", "direction"):
            if rng.random() < 0.5:
                c[k] = [float(number(rng)) for _ in range(3)]
        if rng.random() < 0.6:
            c["type"] = rng.choice(TEXTS)
    if rng.random() < 0.4:
        s["neglect"] = rng.random() < 0.5
    s["ascii"] = rng.randrange(3)
    return s


def gen_both(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 2500):
        s = model(rng, "pyboth")
        s["how"] = rng.choice(["json", "set"])
        s["pick"] = rng.randrange(1000)
        out.append(s)
    return out


def corrupt_both(rng, s, o):
    if "p" not in o:
        return None
    p = o["p"]
    k = rng.randrange(6)
    if k == 0 and p["el"]:
        rng.choice(p["el"])[rng.randrange(4)] += 1
    elif k == 1 and p["conds"]:
        c = rng.choice(p["conds"])
        if c["segs"]:
            c["segs"].pop()
        else:
            c["n"] += 1
    elif k == 2:
        rng.choice(p["set"])[2] = "x"
    elif k == 3:
        rng.choice(p["info"])[2] = "7"
    elif k == 4:
        rng.choice(rng.choice(o["idx"])["r"])[1] = -9
    else:
        p["mesh"][1] = "1.5"
    return o


def gen_life(rng, tier):
    num = 400 if tier == "quick" else 5000
    return [dict(ev="pylife", ops=b["ops"], gc=rng.randrange(2)) for b in core.behaviours("PyLifeGen.tla", "PyLifeSim.cfg", num, 25, core.SEED)]


def corrupt_life(rng, s, o):
    g = [i for i, op in enumerate(s["ops"]) if op["op"] == "use"]
    i = rng.choice(g) if g and rng.random() < 0.7 else rng.randrange(len(o["r"]))
    o["r"][i] = o["r"][i] + 1
    return o


def gen_mesh(rng, tier):
    num = 160 if tier == "quick" else 4000
    return [dict(ev="pymesh", ops=b["ops"], gc=rng.randrange(2), seq=rng.randrange(2), scale=rng.choice([1, 0.5, 1e-3, 1e4]), list=rng.choice(["ip", "bip", "d1"]))
            for b in core.behaviours("PyMeshGen.tla", "PyMeshSim.cfg", num, 61, core.SEED)]


def corrupt_mesh(rng, s, o):
    r = rng.choice([r for r in o["r"] if r] or [None])
    if r is None:
        return None
    r[rng.randrange(len(r))] += 1
    return o


def gen_calls(rng, tier):
    """Calls with at most one wrong value as the model lists them; the number of those with several values is limited."""
    ok, out, _, _ = core.tlc("PySigGen.tla", os.path.join(core.SPECS, "PySigGen.cfg"))
    calls = [json.loads(x) for x in sorted(set(re.findall(r'^"?CALL (\{.*?\})"?$', out.replace('\\"', '"'), re.M)))]
    by = {}
    for c in calls:
        by.setdefault(c["c"], []).append(c)
    out = []
    for k in sorted(by):
        out += rng.sample(by[k], min(len(by[k]), 150 if tier == "quick" else 3000))
    rng.shuffle(out)
    return [dict(ev="pycall", calls=out[i:i + 12]) for i in range(0, len(out), 12)]


def corrupt_calls(rng, s, o):
    o["r"][rng.randrange(len(o["r"]))] = 2
    return o


CHECK = Check("P01", [Part("both", "TraceP01.tla", gen_both, corrupt_both, cmd=PYDRV),
                      Part("lifetimes", "TraceP01.tla", gen_life, corrupt_life, cmd=PYDRV),
                      Part("meshes-and-lists", "TraceP01.tla", gen_mesh, corrupt_mesh, cmd=PYDRV),
                      Part("calls", "TraceP01.tla", gen_calls, corrupt_calls, cmd=PYDRV)],
              models=[dict(module="PyLifeGen.tla"), dict(module="PyMeshGen.tla"), dict(module="PySigGen.tla"), dict(module="PyLifeGen.tla", cfg="PyLifeElement.cfg", refute="AlwaysUsable"),
                      dict(module="PyLifeGen.tla", cfg="PyLifeHolder.cfg", refute="AlwaysUsable"),
                      dict(module="PyLifeGen.tla", cfg="PyLifeBig.cfg", tier="thorough")],
              python=True, assumptions=[])
