from ..check import Check, Part
from .. import lattice as L
from .q01 import UVW


def partition(rng, n):
    lo = [rng.randrange(x) for x in n]
    return [lo, [rng.randint(lo[a], n[a] - 1) for a in range(3)], 0]


def scenario(rng, n, parts, maps=4):
    s = dict(ev="grid", n=n, U=1, p=[1, 1, 1])
    L.scale(rng, s, None)
    if rng.random() < 0.3:      # very flat and very long cells
        s["h"] = [10.0 ** rng.randint(-3, 3) * rng.choice([1.0, 0.3, 7.0]) for _ in range(3)]
    s["grid"] = rng.choice(["b_spline_grid", "hexahedral_fe_grid"])
    u = rng.choice(UVW)
    if u:
        s["uvw"] = u
    s["parts"] = [[[0, 0, 0], [x - 1 for x in n], 1]] + parts
    N = n[0] * n[1] * n[2]
    s["maps"] = []
    for _ in range(maps):
        nv = [rng.randint(-3, 3) for _ in range(3)]
        if not any(nv):
            nv[rng.randrange(3)] = 1
        s["maps"].append(dict(c=rng.randrange(N), t=[rng.choice([0, 1000, 500, rng.randint(-200, 1200)]) for _ in range(3)], nv=nv))
    return s


def gen(rng, tier):
    k = 1 if tier == "quick" else 6
    out = []
    m = 3 if tier == "quick" else 5
    for a in range(1, m + 1):           # every grid up to 3x3x3 / 5x5x5
        for b in range(1, m + 1):
            for c in range(1, m + 1):
                out.append(scenario(rng, [a, b, c], [partition(rng, [a, b, c]) for _ in range(2)]))
    for _ in range(250 * k):
        n = L.grid(rng, rng.choice([3, 5, 9]), 90)
        out.append(scenario(rng, n, [partition(rng, n) for _ in range(2)], 6))
    for a in range(3):                  # long lines
        n = [1, 1, 1]
        n[a] = 40
        out.append(scenario(rng, n, [partition(rng, n)]))
    return out


def corrupt(rng, s, o):
    k = rng.randrange(6)
    if k == 0:
        r = rng.choice(o["ix"])
        r[rng.randrange(4)] += 1
    elif k == 1:
        rng.choice(o["bx"])[rng.randrange(6)] += 2
    elif k == 2:
        rng.choice(o["bu"])[rng.randrange(6)] += 2
    elif k == 3:
        w = rng.choice(rng.choice(o["walk"]))
        d = rng.choice(w["d"])
        d[1] = (d[1] + 1) % 3
    elif k == 4:
        w = rng.choice(rng.choice(o["walk"]))
        d = rng.choice(w["d"])
        d[2] = 1 - d[2]
    else:
        m = rng.choice(o["maps"])
        q = rng.choice(["g", "p", "gp", "pg", "ipg", "bpg"])
        m[q][rng.randrange(3)] += 5
    return o


def cost(s, o):
    N = s["n"][0] * s["n"][1] * s["n"][2]
    return N * N


CHECK = Check("G01", [Part("grids", "TraceG01.tla", gen, corrupt, cost=cost)], models=[dict(module="GridWalk.tla")],
              assumptions=["lower bounds below upper bounds"])
