from ..check import Check, Part
from .. import lattice as L
from .c02 import gen_large, corrupt_crowd
from .. import conds


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(420 * k):
        s = L.body_scenario(rng, "model", mx=3, total=12, kuhn=0.2, U=rng.choice([2, 4]))
        s["conds"] = conds.conditions(rng, s["n"], s["U"], 2, 1)
        s["min_tri"] = 1
        s["residual"] = 1e-5
        s["ips"] = rng.random() < 0.5
        s["threads"] = rng.choice([1, 1, 4])
        out.append(s)
    return out


def corrupt(rng, s, o):
    c = [c for c in o["conds"] if any(max(g["a"]) > 500 for g in c["segs"])]
    if not c:
        return None
    c = rng.choice(c)
    g = rng.choice([g for g in c["segs"] if max(g["a"]) > 500])
    k = rng.randrange(5)
    if k == 0:
        c["segs"].remove(g)
        c["nseg"] -= 1
    elif k == 1:
        d = max(range(6), key=lambda j: g["a"][j])
        g["a"][d] += 50
    elif k == 2:
        g["act"] = 1 - g["act"]
    elif k == 3:
        d = max(range(6), key=lambda j: g["a"][j])
        g["a"][d ^ 1], g["a"][d] = g["a"][d], g["a"][d ^ 1]
        if g["a"][d] == g["a"][d ^ 1]:
            return None
    else:
        c["perc"] += 10
    return o


def cost(s, o):
    n = s["n"]
    cells = n[0] * n[1] * n[2]
    return sum(cells * ((s["U"] + 4) ** 3 * 6 if "rects" not in c else len(c["rects"])) for c in s["conds"])


CHECK = Check("B01", [Part("surfaces", "TraceB01.tla", gen, corrupt, cost=cost),
                      Part("large grids", "TraceC02.tla", gen_large, corrupt_crowd, threads=8, nproc=1)],
              assumptions=["condition surfaces on an integer lattice (4 or 2 units per cell): axis-aligned rectangles and facets of Kuhn tetrahedra"])
