from .. import core
from .. import conds
from .. import lattice as L
from ..check import Check, Part
from .q01 import settings, orders


def gen(rng, tier):
    out = []
    for i in range(400 if tier == "quick" else 1600):
        s = L.body_scenario(rng, "files", mx=3, total=8, kuhn=0.25)
        s["p"] = orders(rng, 2)
        s["min_tri"] = rng.choice([1, 10])
        settings(rng, s)
        s["method"] = rng.choice(["Gauss", "Gauss", "Gauss_Reduced1"])
        s["conds"] = conds.conditions(rng, s["n"], s["U"], 2)
        s["ids"] = [str(c["id"]) for c in s["conds"]]
        s["write"] = rng.random() < 0.75
        s["again"] = rng.randrange(2)
        s["threads"] = rng.choice([1, 1, 3])
        out.append(s)
    return out


def corrupt(rng, s, o):
    k = rng.randrange(7)
    r = rng.choice(o["out"])
    if k == 0:
        o["files"].append("out/extra.vtk")
    elif k == 1:
        r["differ"] = 1
    elif k == 2:
        r = next(x for x in o["out"] if x["kind"] == "mesh")
        r["types"][-1] = 7
    elif k == 3:
        r = next(x for x in o["out"] if x["kind"] == "mesh")
        r["cells"][-1][0] = r["np"]
    elif k == 4:
        r = next(x for x in o["out"] if x["kind"] == "mesh")
        r["csize"] += 1
    elif k == 5:
        r = next(x for x in o["out"] if x["kind"] == "meshstl")
        r["n"] += 1
    else:
        o["err"][-1] = 0
    return o


def gen_buf(rng, tier):
    num = 300 if tier == "quick" else 3000
    out = []
    for b in core.behaviours("BufWriterGen.tla", "BufWriterSim.cfg", num, 13, core.SEED):
        for op in b["ops"]:
            if op["op"] in ("val", "arr"):
                op["f"] = rng.randrange(2)
        out.append(dict(ev="bufw", **b))
    return out


def corrupt_buf(rng, s, o):
    if len(o["end"]) < 2:
        return None
    i = rng.randrange(len(o["end"]))
    o["end"][i] ^= 1
    return o


def gen_big(rng, tier):
    out = [dict(ev="bigfile", k=k, what=w, enc=e) for k in ([120] if tier == "quick" else [120, 260]) for w in ("vtk", "stl") for e in ("binary", "ascii")]
    # grids: more than 2^20 bytes, and less
    for k in ([22] if tier == "quick" else [5, 18, 22, 30]):
        out += [dict(ev="bigfile", k=k, what=w, enc=e, n=[k] * 3, U=1, p=[2, 2, 2]) for w in ("elements", "points") for e in ("binary", "ascii")]
    # more than 2^16 points
    out += [dict(ev="bigfile", k=36, what="points", enc=e, n=[36] * 3, U=1, p=[2, 2, 2]) for e in ("binary", "ascii")]
    return out


def corrupt_big(rng, s, o):
    o["differ"] = 1
    return o


CHECK = Check("I02", [Part("models", "TraceI02.tla", gen, corrupt), Part("writer", "TraceI02.tla", gen_buf, corrupt_buf),
                      Part("large", "TraceI02.tla", gen_big, corrupt_big)],
              models=[dict(module="BufWriterGen.tla"), dict(module="BufWriterGen.tla", cfg="BufWriterBroken.cfg", refute="NothingLost"),
                      dict(module="BufWriterGen.tla", cfg="BufWriterBig.cfg", tier="thorough")],
              assumptions=["the files are parsed by the harness; unwritable means a missing directory or a full device"])
