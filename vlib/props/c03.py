from ..check import Check, Part
from .. import lattice as L


def add_queries(rng, s):
    U, n = s["U"], s["n"]
    kuhn = s["kind"] == "kuhn"
    Q = s["Q"] = 8 if kuhn else rng.choice([2, 4])
    if kuhn:
        lo = [s["o"][a] - 1 for a in range(3)]
        hi = [s["o"][a] + s["s"] * s["N"][a] + 1 for a in range(3)]
    else:
        lo = [s["planes"][a][0] - 1 for a in range(3)]
        hi = [s["planes"][a][-1] + 1 for a in range(3)]
    pts = []
    for _ in range(24):
        p = []
        for a in range(3):
            x = rng.randint(Q * lo[a], Q * hi[a])
            if kuhn:  # no ties between coordinates: never on a face
                x = x - x % Q + [[1, 7], [3, 5], [2, 6]][a][rng.randrange(2)]
            p.append(x)
        pts.append(p)
    boxes = []
    for _ in range(8):
        b0, b1 = [], []
        for a in range(3):
            st = Q if kuhn or rng.random() < 0.5 else 1
            c = sorted(rng.sample(range(lo[a] * Q // st, hi[a] * Q // st + 1), 2))
            b0.append(c[0] * st)
            b1.append(c[1] * st)
        boxes.append([b0, b1])
    # the grid cells themselves and their halves
    for _ in range(4):
        c = [rng.randrange(n[a]) for a in range(3)]
        b0 = [Q * U * x for x in c]
        b1 = [Q * U * (x + 1) for x in c]
        if rng.random() < 0.5:
            a = rng.randrange(3)
            b1[a] = b0[a] + Q * U // 2
        boxes.append([b0, b1])
    s["pts"], s["boxes"] = pts, boxes
    return s


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = [add_queries(rng, L.body_scenario(rng, "query")) for _ in range(350 * k)]
    out += [add_queries(rng, L.body_scenario(rng, "query", kuhn=1.0, total=27)) for _ in range(200 * k)]
    for _ in range(3 * k):      # no surface at all: everything is outside
        s = L.body_scenario(rng, "query")
        while s["kind"] != "box":
            s = L.body_scenario(rng, "query")
        s["mat"] = [0] * len(s["mat"])
        out.append(add_queries(rng, s))
    return out


def gen_large(rng, tier):
    """The same bodies in thousands of small triangles: the tree behind the queries is deep."""
    out = []
    for i in range(60 if tier == "quick" else 400):
        s = add_queries(rng, L.body_scenario(rng, "query", total=27, kuhn=0.4))
        s["fine"] = rng.choice([2, 3, 3, 4])
        s["every"] = {2: 7, 3: 31, 4: 127}[s["fine"]]
        out.append(s)
    return out


def corrupt_large(rng, s, o):
    b = rng.choice(o["box"])
    b["tr"] = 1 - b["tr"]
    return o


def corrupt(rng, s, o):
    c = rng.randrange(3)
    if c == 0:
        b = rng.choice(o["box"])
        b["st"] = {"i": "o", "o": "t", "t": "i"}[b["st"]]
    elif c == 1:
        b = rng.choice(o["box"])
        if b["ids"]:
            b["ids"].pop()
        else:
            b["ids"].append(0)
    else:
        b = rng.choice(o["box"])
        b["tr"] = 1 - b["tr"]
    return o


CHECK = Check("C03", [Part("queries", "TraceC03.tla", gen, corrupt, cost=lambda s, o: len(o.get("tris", []))),
                      Part("many triangles", "TraceC03.tla", gen_large, corrupt_large, cost=lambda s, o: len(o.get("tris", [])))],
              assumptions=["query points off the surface; box corners on a refined lattice"])
