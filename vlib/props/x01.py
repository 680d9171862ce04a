import os
from .. import core
from .. import conds
from .. import lattice as L
from ..check import Check, Part
from .d02 import PYDRV
from .q01 import settings, orders

DRV = [PYDRV[0], os.path.join(os.path.dirname(PYDRV[1]), "kratosdrv.py")]


def triangle(rng, plane=None):
    """Integer corners in 0..8; the area is an integer or half of one. plane: the axis of its normal."""
    while True:
        a = rng.randrange(3) if plane is None else plane
        b, c = (a + 1) % 3, (a + 2) % 3
        if plane is not None or rng.random() < 0.5:      # in a plane of two axes
            e1, e2 = [0, 0, 0], [0, 0, 0]
            e1[b], e1[c], e2[b], e2[c] = (rng.randint(-4, 4) for _ in range(4))
        else:                       # along one axis, and in direction 3:4 or 4:3 of the others
            e1, e2 = [0, 0, 0], [0, 0, 0]
            e1[a] = rng.choice([-4, -3, -2, -1, 1, 2, 3, 4])
            q = rng.choice([(3, 4), (4, 3), (-3, 4), (4, -3), (-4, -3)])
            e2[b], e2[c] = q
            e2[a] = rng.randint(-2, 2)
        if rng.random() < 0.5:
            e1, e2 = e2, e1
        p = [rng.randint(0, 8) for _ in range(3)]
        t = [p, [p[i] + e1[i] for i in range(3)], [p[i] + e2[i] for i in range(3)]]
        n = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
        flat = n == [0, 0, 0]
        if all(0 <= x <= 8 for v in t for x in v) and (not flat or rng.random() < 0.05):
            return t


def elements(rng):
    return [[[rng.randint(0, 9) for _ in range(3)] + [rng.choice([-2, -1, 0, 1, 1, 2, 2, 3, 4])] for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 5))]


def setting(rng):
    h, plane = [rng.choice([1, 0.5, 0.001, 10.0, 0.3, 1e-5])] * 3, None
    b = [0, 1]
    if rng.random() < 0.35:     # all triangles in planes of the same direction, in which they may be slender
        plane = rng.randrange(3)
        b = [(plane + 1) % 3, (plane + 2) % 3]
        h = [rng.choice([1, 0.3, 1e-3, 200.0]) for _ in range(3)]
    s = dict(h=h, b=b, lower=rng.choice([[0, 0, 0], [-2.5, 100.25, 7.0]]), span=[rng.randint(8, 12) for _ in range(3)],
             meshes=[[triangle(rng, plane) for _ in range(rng.choice([1, 1, 2, 3, 6]))] for _ in range(3)] + [[]],
             elems=[elements(rng) for _ in range(2)])
    s["U0"], s["U1"] = rng.choice([([0.0] * 3, [1.0] * 3), ([-1.0, 0.0, 2.0], [1.0, 5.0, 2.5]), ([0.0, -3.0, 10.0], [7.0, -2.75, 110.0]), ([0.0] * 3, [2e-5] * 3)])
    ids = rng.sample(range(1, 60), 4)
    rng.shuffle(ids)
    # the boxes of the model are meant for these nodes; one of them may move to the side of a box or out of it
    pos = [[1, 1, 1], [3, 1, 1], [1, 3, 1], [3, 3, 3]]
    if rng.random() < 0.5:
        pos[rng.randrange(4)] = [rng.randint(0, 6) for _ in range(3)]
    s["nodes"] = [[i] + p for i, p in zip(ids, pos)]
    return s


def inside(n, c):
    return all(c["lo"][i] < n[1 + i] < c["hi"][i] for i in range(3))


def loaded_twice(s):
    """Whether a node is in two boxes with a force at a time (the model's own nodes are elsewhere)."""
    seen = set()
    for op in s["ops"]:
        if op["op"] == "rmc":
            seen = set()
        for c in op["c"]:
            if c["t"] == "neumann":
                b = {n[0] for n in s["nodes"] if inside(n, c)}
                if b & seen:
                    return True
                seen |= b
    return False


def fresh(ops):
    """Elements are handed over once, or again after they were removed."""
    out, there = [], False
    for op in ops:
        if op["op"] == "elements":
            if there:
                continue
            there = True
        elif op["op"] == "rme":
            there = False
        out.append(op)
    return out


def gen_programs(rng, tier):
    num = 500 if tier == "quick" else 6000
    out = []
    for b in core.behaviours("KratosViewGen.tla", "KratosViewSim.cfg", num, 8, core.SEED):
        s = dict(ev="kprog", ops=fresh(b["ops"]), **setting(rng))
        if loaded_twice(s):
            s["nodes"] = [[n[0]] + p for n, p in zip(s["nodes"], [[1, 1, 1], [3, 1, 1], [1, 3, 1], [3, 3, 3]])]
        out.append(s)
    return out


def corrupt_programs(rng, s, o):
    r = rng.choice(o["r"])
    can = [k for k in range(6) if k > 2 or r[["el", "fx", "sup"][k]]]
    k = rng.choice(can[:2] if rng.random() < 0.5 else can)
    if k == 0:
        r["el"].pop()
    elif k == 1:
        r["fx"].pop()
    elif k == 2:
        x = rng.choice(r["sup"])
        x[3] = [x[3][0], x[3][2], x[3][1]]
    elif k == 3:
        rng.choice(r["pf"])[rng.randint(1, 3)] += 10
    elif k == 4:
        r["ld"]["m"][rng.randrange(3)][rng.randrange(3)] += 1
    else:
        r["a"] = -1 - r["a"]
    return o


def gen_meshes(rng, tier):
    out = []
    for _ in range(300 if tier == "quick" else 6000):
        s = dict(ev="kmesh", how=rng.choice(["there", "own"]), h=rng.choice([1, 0.25, 1e-3, 100.0, 0.3]), kind="Elements", short=rng.randrange(2))
        if s["how"] == "there":
            s.update(tris=[triangle(rng) for _ in range(rng.choice([0, 1, 2, 5, 12]))], share=rng.randrange(2),
                     loose=[[rng.randint(0, 9) for _ in range(3)] for _ in range(rng.choice([0, 0, 1, 2]))])
        else:
            k = rng.randint(3, 9)
            pts = [[rng.randint(0, 9) for _ in range(3)] for _ in range(k)]
            ids = rng.sample(range(1, 40), k)
            s["kind"] = rng.choice(["Elements", "Conditions"])
            s["nodes"] = [[i, p] for i, p in zip(ids, pts)]
            s["ents"] = [[e, rng.sample(ids, 3)] for e in rng.sample(range(1, 30), rng.randint(0, 8))]
            if s["ents"] and rng.random() < 0.15:
                rng.choice(s["ents"])[1] = rng.sample(ids, rng.choice([2, 4] if k > 3 else [2]))
        out.append(s)
    return out


def corrupt_meshes(rng, s, o):
    k = rng.randrange(4)
    if k == 0 and o["a"] == 0 and o["back"]:
        t = rng.choice(o["back"])
        t[0], t[1] = t[1], t[0]
        if t[0] == t[1]:
            return None
    elif k == 1 and o["a"] == 0 and o["bverts"]:
        o["bverts"].pop()
    elif k == 2 and s["how"] == "there" and o["ents"]:
        o["ents"].pop()
    else:
        o["a"] = -1 - o["a"]
        o.setdefault("back", []), o.setdefault("bverts", []), o.setdefault("normals", 0)
    return o


TYPES = ["PenaltySupportCondition", "LagrangeSupportCondition", "SurfaceLoadCondition", "PressureLoadCondition"]
DIRS = [([0, 3, 4], 5), ([-1, 0, 0], 1), ([1, 2, -2], 3), ([0, -2, 0], 2)]


def gen_runs(rng, tier):
    out = []
    for _ in range(70 if tier == "quick" else 900):
        s = L.body_scenario(rng, "krun", mx=3, total=8, kuhn=0.25)
        # coordinates that files keep exactly
        s["lower"], s["h"] = rng.choice([[0.0, 0.0, 0.0], [-2.5, 100.25, 7.0]]), [rng.choice([1.0, 0.25, 3.0])] * 3
        s["p"] = orders(rng, 2)
        s["min_tri"] = 1
        settings(rng, s)
        s["method"] = rng.choice(["Gauss", "Gauss_Reduced1"])
        s["first"], s["ascii"] = rng.randrange(2), rng.randrange(3)
        pen = rng.choice([7, 1000, 250000])
        s["conds"] = []
        for i, cid in enumerate(rng.sample(range(1, 50), rng.randint(1, 4))):
            t = rng.choice(TYPES)
            c = conds.condition(rng, s["n"], s["U"], cid) if t != "SurfaceLoadCondition" else dict(id=cid, rects=conds.rects(rng, s["n"], s["U"]))
            c.update(type=t, k=rng.choice([-3, 1, 2, 10]), d=[i + 1, rng.randint(-3, 3), rng.randint(-3, 3)], pen=pen)
            if t == "SurfaceLoadCondition":
                c["d"], nd = rng.choice(DIRS)
                c["modulus"], c["direction"] = float(c["k"] * nd), [float(x) for x in c["d"]]
            elif t == "PressureLoadCondition":
                c["modulus"] = float(c["k"])
            else:
                c["value"] = [float(x) for x in c["d"]]
                c["penalty"] = float(pen)
            s["conds"].append(c)
        out.append(s)
    return out


def corrupt_runs(rng, s, o):
    k = rng.randrange(6)
    if k == 0 and o["el"]:
        rng.choice(o["el"])[1] += 1
    elif k == 1 and o["sup"]:
        rng.choice(o["sup"])[3][rng.randrange(6)] += 5
    elif k == 2:
        o["order"][rng.randrange(3)] += 1
    elif k == 3:
        o["dofs"].pop()
    elif k == 4:
        o["emb"] += 1
    else:
        o["f"][rng.randrange(3)] += 60
    return o


CHECK = Check("X01", [Part("programs", "TraceX01.tla", gen_programs, corrupt_programs, cmd=DRV),
                      Part("meshes", "TraceX01.tla", gen_meshes, corrupt_meshes, cmd=DRV),
                      Part("analyses", "TraceX01.tla", gen_runs, corrupt_runs, cmd=DRV)],
              models=[dict(module="KratosViewGen.tla"), dict(module="KratosViewGen.tla", cfg="KratosViewCode.cfg", tier="thorough"),
                      dict(module="KratosViewGen.tla", cfg="KratosViewOverlap.cfg", refute="ForceKept"),
                      dict(module="KratosViewGen.tla", cfg="KratosViewPenalty.cfg", refute="PenaltyKept")],
              python=True, assumptions=[])
