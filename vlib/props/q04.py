from ..check import Check, Part
from .. import lattice as L
from .q01 import settings, orders


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(330 * k):
        s = L.body_scenario(rng, "fict", mx=2, total=8, kuhn=0.4)
        s["p"] = orders(rng, 3 if i % 9 == 0 else 2)
        s["al"] = rng.choice([[1, 1], [1, 2], [1, 10], [1, 50], [3, 4], [7, 10]])
        s["alpha"] = s["al"][0] / s["al"][1]
        s["resexp"] = rng.choice([10, 8, 6])
        s["residual"] = 10.0 ** -s["resexp"]
        s["min_tri"] = rng.choice([1, 50, 100])
        if rng.random() < 0.3:
            s["method"] = rng.choice(["Gauss_Reduced1", "Gauss"])
        out.append(settings(rng, s))
    return out


def corrupt(rng, s, o):
    warned = set(o["warn"])
    e = [x for x in o["with"] if x["id"] not in warned and x["t"] == 1]
    w = {x["id"]: x for x in o["without"]}
    e = [x for x in e if x["id"] in w and x["np"] > w[x["id"]]["np"]]
    if not e:
        return None
    e = rng.choice(e)
    k = rng.randrange(4)
    if k == 0:
        e["w"][-1] += e["w"][-1] // 4 + 20
    elif k == 1:
        e["pts"].append([1500, 1500, 1500])
        e["w"].append(5)
        e["np"] += 1
    elif k == 2:
        j = e["w"].index(max(e["w"]))
        e["pts"].pop(j)
        e["w"].pop(j)
        e["np"] -= 1
    else:
        o["rep1"] += 1000
    return o


def cost(s, o):
    return sum(x["np"] for x in o.get("with", [])) * 4 + 50


CHECK = Check("Q04", [Part("fictitious", "TraceQ04.tla", gen, corrupt, cost=cost)],
              assumptions=["solids on an integer lattice with features >= 1/4 cell; orders 1..3; alpha in [1/50, 1]",
                           "Gauss points within 1/1000 of a lattice unit of the surface may count to either side"])
