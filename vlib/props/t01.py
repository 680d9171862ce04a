from ..check import Check, Part
from .. import lattice as L


def queries(rng, s):
    U = s["U"]
    kuhn = s["kind"] == "kuhn"
    Q = s["Q"] = 8
    pts = []
    for _ in range(12):
        p = []
        for a in range(3):
            x = rng.randint(1, Q * U - 1)
            if kuhn:
                x = x - x % Q + [[1, 7], [3, 5], [2, 6]][a][rng.randrange(2)]
            p.append(x)
        pts.append(p)
    boxes = [[[U // 2 * ((k >> a) & 1) for a in range(3)], [U // 2 * (((k >> a) & 1) + 1) for a in range(3)]] for k in range(8)]
    if U > 2:
        for _ in range(4):
            b = [sorted(rng.sample(range(U + 1), 2)) for _ in range(3)]
            boxes.append([[x[0] for x in b], [x[1] for x in b]])
    s["pts"], s["boxes"] = pts, boxes
    return s


def finish(rng, s):
    n = s["n"]
    cells = [[i, j, k] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    rng.shuffle(cells)
    s["cells"] = cells[:12]
    s["mintri"] = rng.choice([1, 12, 100, 100, 500])
    s["minratio"] = rng.choice([1, 1, 1, 50, 300])
    s["minvol"] = s["minratio"] / 1000.0 + 1e-6   # the bound itself belongs to no lattice volume ratio
    if s["minratio"] != 1:
        # avoid the limit case volume = bound (the comparison is strict in floating point)
        s["minratio"], s["minvol"] = {50: (50, 0.0500007), 300: (300, 0.3000007)}[s["minratio"]]
    return queries(rng, s)


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = [finish(rng, L.body_scenario(rng, "trim", mx=3, total=12)) for _ in range(450 * k)]
    out += [finish(rng, L.body_scenario(rng, "trim", mx=3, total=12, kuhn=1.0)) for _ in range(350 * k)]
    return out


def gen_fine(rng, tier):
    """The same bodies in more and smaller triangles: what is enclosed does not depend on the triangulation."""
    k = 1 if tier == "quick" else 8
    out = [finish(rng, L.body_scenario(rng, "trim", mx=3, total=12, kuhn=0.5)) for _ in range(80 * k)]
    for s in out:
        s["fine"] = rng.choice([1, 1, 2, 2, 3])
        s["cells"] = s["cells"][:6]
    return out


def gen_full(rng, tier):
    out = []
    for _ in range(60):
        s = dict(ev="fullcell", U=4, cell=[rng.randrange(5) for _ in range(3)], Q=8)
        L.scale(rng, s)
        s["pts"] = [[rng.randint(-8, 40) for _ in range(3)] for _ in range(16)]
        bx = []
        for _ in range(12):
            b = [sorted(rng.sample(range(-2, 7), 2)) for _ in range(3)]
            bx.append([[x[0] for x in b], [x[1] for x in b]])
        s["boxes"] = bx
        out.append(s)
    return out


def corrupt(rng, s, o):
    d = [c for c in o["cells"] if c["st"] == "dom"]
    if not d:
        return None
    c = rng.choice(d)
    k = rng.randrange(6)
    if k == 0:
        c["vol"] += 100
    elif k == 1:
        c["mom"][rng.randrange(3)] -= 400
    elif k == 2:
        c["pl"][rng.randrange(6)] += 250
    elif k == 3:
        c["box"][0] = {"i": "o", "o": "t", "t": "i"}[c["box"][0]]
    elif k == 4:
        c["area"][rng.randrange(3)] += 50
    else:
        c["st"] = "none"
    return o


def corrupt_full(rng, s, o):
    o["vol"] += 10
    return o


CHECK = Check("T01", [Part("trimmed", "TraceT01.tla", gen, corrupt), Part("many triangles", "TraceT01.tla", gen_fine, corrupt), Part("full", "TraceT01.tla", gen_full, corrupt_full)],
              assumptions=["solids on an integer lattice with features >= 1/4 cell; affine scalings per axis",
                           "geometric tolerance: 1e-5 of a cell, the accuracy the code itself requests"])
