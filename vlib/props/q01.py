from ..check import Check, Part
from .. import lattice as L

UVW = [None, [[-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]], [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]], [[-3.0, 0.5, 10.0], [-1.0, 7.5, 10.25]]]


def settings(rng, s):
    s["grid"] = rng.choice(["b_spline_grid", "hexahedral_fe_grid"])
    u = rng.choice(UVW)
    if u:
        s["uvw"] = u
    elif s["grid"] != "b_spline_grid":
        s["uvw"] = UVW[1]
    return s


def finish(rng, s, p):
    s["p"] = p
    s["resexp"] = rng.choice([10, 10, 8, 6, 4])
    s["residual"] = 10.0 ** -s["resexp"]
    if rng.random() < 0.2:
        s["minratio"], s["min_vol"] = rng.choice([(50, 0.0500007), (300, 0.3000007)])
    else:
        s["minratio"] = 1
    s["min_tri"] = rng.choice([1, 50, 100, 200])
    s["deg"] = [min(x, 1) for x in p] if s["kind"] == "kuhn" else p
    return settings(rng, s)


def orders(rng, mx):
    if rng.random() < 0.5:
        return [rng.randint(1, mx)] * 3
    return [rng.randint(1, mx) for _ in range(3)]


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for _ in range(220 * k):
        out.append(finish(rng, L.body_scenario(rng, "quad", mx=2, total=6), orders(rng, 2)))
    for _ in range(130 * k):
        out.append(finish(rng, L.body_scenario(rng, "quad", mx=2, total=6, kuhn=1.0), orders(rng, 2)))
    for _ in range(24 * k):
        out.append(finish(rng, L.body_scenario(rng, "quad", mx=2, total=2), orders(rng, 3)))
    for _ in range(8 * k):
        out.append(finish(rng, L.body_scenario(rng, "quad", mx=1, total=1), orders(rng, 4)))
    return out


def gen_plate(rng, tier):
    """Plates that leave few places for points, down to fewer than there are moments."""
    out = []
    for k in range(24 if tier == "quick" else 120):
        t, tm = [(2, 1), (2, 3), (3, 1), (3, 4), (4, 1), (4, 2), (5, 1), (5, 1)][k % 8]
        p = rng.choice([[1, 1, 1], [1, 2, 1], [2, 1, 1], [2, 2, 1], [2, 2, 2]])
        if k % 8 < 6 and rng.random() < 0.3:
            p = [rng.randint(1, 3) for _ in range(3)]
        x = [rng.randint(1, 20), rng.randint(55, 70)]
        y = [rng.randint(1, 20), rng.randint(55, 70)]
        sl = [rng.randint(30, 70), rng.randint(30, 70)]
        low = (sl[0] * x[1] + sl[1] * y[1]) // 100 + 2  # the plate stays inside of the cell
        top = 99 - (tm * 100) // 10 ** t + (sl[0] * x[0] + sl[1] * y[0]) // 100
        if low > top:
            sl = [30, 30]
            low, top = 45, 90
        s = dict(ev="plate", n=[1, 1, 1], U=1, p=p, t=t, tm=tm, x=x, y=y, sl=sl, z0=rng.randint(max(low, top - 3), top),
                 residual=1e-10, resexp=10, min_vol=0.0, lower=[0.0] * 3, h=[1.0] * 3)
        if rng.random() < 0.5:
            s["h"] = [rng.choice([0.1, 1.0, 7.0]) for _ in range(3)]
            s["lower"] = [rng.choice([0.0, -1.0, 3.0]) for _ in range(3)]
        out.append(settings(rng, s))
    return out


def corrupt_plate(rng, s, o):
    if not o["el"]:
        return None
    k, e = rng.randrange(4), o["el"][0]
    if k == 0:
        e["b"][5] = 100100
    elif k == 1:
        o["warn"] = 0
        e["m"][rng.randrange(4)] += 100
    elif k == 2:
        e["neg"] = 1
    else:
        e["np"] = 0
    return o


def gen_elim(rng, tier):
    """Candidates on a lattice, with moments of some of them or of points beyond them."""
    out = []
    for _ in range(260 if tier == "quick" else 2500):
        p = rng.choice([[1, 1, 1], [1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [2, 1, 2], [2, 2, 2]])
        nf = (p[0] + 1) * (p[1] + 1) * (p[2] + 1)
        beyond = rng.random() < 0.2
        a, top = rng.randrange(3), rng.randint(1, 3)
        lat = [[x, y, z] for x in range(5) for y in range(5) for z in range(5)]
        near = [q for q in lat if q[a] <= top] if beyond else lat
        c = rng.sample(near, min(len(near), rng.choice([1, 2, nf - 1, nf, nf + 1, 2 * nf, 40, 64])))
        far = [q for q in lat if q[a] > top] if beyond else c
        t = [q + [rng.choice([1, 1, 2, 3, 7, 40])] for q in rng.sample(far, min(len(far), rng.choice([1, 2, 3, nf - 1, nf, 2 * nf])))]
        if rng.random() < 0.15:
            c = c + [rng.choice(c) for _ in range(3)]
        s = dict(ev="elim", n=[1, 1, 1], U=4, p=p, c=c, t=t, resexp=rng.choice([10, 10, 8, 6]), nm=nf, unit=rng.choice([1.0, 1e-3, 1e-6, 100.0]),
                 lower=[rng.choice([0.0, -1.0, 3.0]) for _ in range(3)], h=[rng.choice([0.5, 1.0, 7.0]) for _ in range(3)])
        u = rng.choice(UVW)
        s["uv"] = [[u[0][k], u[1][k]] for k in range(3)] if u else [[s["lower"][k], s["lower"][k] + s["h"][k]] for k in range(3)]
        out.append(s)
    return out


def corrupt_elim(rng, s, o):
    if "na" in o:
        return None
    k = rng.randrange(5)
    if k == 0:
        o["said"] = 0
    elif k == 1:
        o["neg"] = 1
    elif k == 2:
        o["np"] = 28
    elif k == 3:
        if not o["met"] or s["resexp"] < 8:
            return None
        o["mom"][rng.randrange(len(o["mom"]))] += 50
    else:
        if not o["pts"]:
            return None
        o["pts"][0][rng.randrange(3)] += 500
    return o


def corrupt(rng, s, o):
    e = [x for x in o["el"] if not any(w[0] == x["id"] for w in o["warn"])]
    if not e or s["resexp"] < 6:
        return None
    e = rng.choice(e)
    k = rng.randrange(5)
    if k == 0:
        e["mom"][0] += 100
    elif k == 1:
        e["mom"][-1] -= 10 ** 8
    elif k == 2:
        e["pts"][0][rng.randrange(3)] += 100000
    elif k == 3:
        e["neg"] = 1
    else:
        o["rep"] += 1000
    return o


def cost(s, o):
    return sum(len(e["pts"]) for e in o.get("el", [])) + s["n"][0] * s["n"][1] * s["n"][2] * 10


CHECK = Check("Q01", [Part("trimmed", "TraceQ01.tla", gen, corrupt, cost=cost), Part("plates", "TraceQ01.tla", gen_plate, corrupt_plate),
                      Part("elimination", "TraceQ01.tla", gen_elim, corrupt_elim)],
              models=[dict(module="PointElim.tla"), dict(module="PointElim.tla", cfg="PointElimBig.cfg", tier="thorough"),
                      dict(module="PointElim.tla", cfg="PointElimCurrent.cfg", refute="Never"),
                      dict(module="PointElim.tla", cfg="PointElimTold.cfg", refute="Told")],
              assumptions=["solids on an integer lattice with features >= 1/4 cell; orders 1..4 (1 per direction for moments of inclined solids)"])
