from ..check import Check, Part
from .. import lattice as L
from .c02 import gen_large, corrupt_crowd


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for _ in range(700 * k):
        out.append(L.body_scenario(rng, "class"))
    for _ in range(350 * k):
        out.append(L.body_scenario(rng, "class", kuhn=1.0, total=27))
    for _ in range(150 * k):    # small grids inside of larger bodies that touch the cells along edges and vertices
        n = [rng.randint(1, 3) for _ in range(3)]
        out.append(L.surround(rng, "class", n))
    # larger grids with conforming solids: many fill groups
    for _ in range(60 * k):
        out.append(L.body_scenario(rng, "class", mx=7, total=150, nb=7))
    for _ in range(4 * k):      # no surface: everything is outside
        s = L.body_scenario(rng, "class")
        if s["kind"] == "box":
            s["mat"] = [0] * len(s["mat"])
        out.append(s)
    for s in out:
        if s["kind"] == "kuhn":
            s["mani"] = L.manifold(s)
        s["threads"] = rng.choice([1, 1, 2, 3, 4, 7])
    # every union of 2x2x2 boxes whose planes coincide with cell boundaries / are offset from them
    pls = [([0, 4, 8], [0, 4, 8], [0, 4, 8]), ([2, 6, 9], [1, 4, 7], [0, 3, 8]), ([0, 4, 12], [4, 8, 12], [0, 8, 12])]
    ns = [(2, 2, 2), (3, 2, 2), (3, 3, 3)]
    ex = []
    for pl, n in zip(pls, ns):
        ex += list(L.exhaustive_2x2x2("class", [pl], n))
    if tier == "quick":
        ex = rng.sample(ex, 250)
    fine = []
    for _ in range(60 * k):     # the same surfaces in many small triangles
        s = L.body_scenario(rng, "class", kuhn=0.4, total=27)
        s["fine"], s["threads"] = rng.choice([1, 2, 3]), rng.choice([1, 4])
        fine.append(s)
    return out + ex + fine


def corrupt(rng, s, o):
    if rng.random() < 0.5:
        i = rng.randrange(len(o["cls"]))
        o["cls"][i] = {"i": "o", "o": "t", "t": "i"}[o["cls"][i]]
        return o
    k = rng.choice(["untr", "trim"])
    if o["untr"]:
        o["trim"].append(o["untr"].pop())
        return o
    return None


def cost(s, o):
    n = s["n"]
    cells = n[0] * n[1] * n[2]
    return cells * (6 * s["U"] ** 3 if s["kind"] == "kuhn" else sum(s["mat"]))


CHECK = Check("C01", [Part("bodies", "TraceC01.tla", gen, corrupt, cost=cost),
                      Part("large grids", "TraceC02.tla", gen_large, corrupt_crowd, threads=8, nproc=1)],
              assumptions=["solids on an integer lattice with features >= 1/4 cell; affine scalings per axis"])
