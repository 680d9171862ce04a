from ..check import Check, Part
from .. import lattice as L
from .. import conds


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(260 * k):
        big = i % 4 == 0
        s = L.body_scenario(rng, "threads", mx=7 if big else 4, total=120 if big else 36, kuhn=0.1 if not big else 0.0,
                            mode=rng.choice([None, "conf"]), nb=6 if big else 3)
        s["conds"] = conds.conditions(rng, s["n"], s["U"], 2, 0)
        s["resexp"] = 6
        s["residual"] = 1e-6
        s["min_tri"] = 1
        if rng.random() < 0.3:
            s["method"] = rng.choice(["GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"])
            s["p"] = [2, 2, 2]
        s["tc"] = [1] + rng.sample([1, 2, 3, 4, 5, 6, 7, 8, 11, 16], 3)
        out.append(s)
    # complete sweep over thread counts
    for i in range(12 * k):
        s = L.body_scenario(rng, "threads", mx=8, total=60, nb=6, mode="conf")
        s["conds"] = []
        s["resexp"], s["residual"], s["min_tri"] = 6, 1e-6, 1
        s["tc"] = list(range(1, 11))
        out.append(s)
    return out


def gen_crowd(rng, tier, num=20, again=6):
    out = []
    for k in range(num if tier == "quick" else 8 * num):
        U = 2
        n = rng.choice([[32, 32, 2], [48, 24, 1], [20, 40, 3], [16, 16, 8], [64, 12, 3], [3, 12, 64], [100, 10, 1], [12, 12, 12]])
        lo, hi = [], []
        for a in range(3):
            x, y = sorted(rng.sample(range(0, n[a] + 1), 2))
            x, y = U * x, U * y
            if rng.random() < (0.3 if n[a] > 4 else 0.1):
                y -= 1  # one layer of cut cells
            lo.append(x), hi.append(y)
        sheets = []
        for _ in range(2):
            x, y = sorted(rng.sample(range(U * n[0] + 1), 2)), sorted(rng.sample(range(U * n[1] + 1), 2))
            if rng.random() < 0.6:
                x, y = [0, U * n[0]], [0, U * n[1]]
            sheets.append([x[0], y[0], x[1], y[1], U * rng.randrange(n[2]) + 1])
        out.append(dict(ev="crowd", n=n, U=U, lo=lo, hi=hi, sheets=sheets, p=[1, 1, 1], min_vol=0.0, min_tri=1, residual=1e-6,
                        tc=rng.sample([1, 3, 7, 12, 16], 2) + [8] * (again if tier == "quick" else 2 * again)))
    return out


def gen_large(rng, tier):
    return gen_crowd(rng, tier, 14, 4)


def corrupt_crowd(rng, s, o):
    r = o["runs"][-1]
    k = rng.randrange(4)
    if k == 0:
        r["cls"][0] += 1
    elif k == 1:
        r["el"][2] -= 1
    elif k == 2:
        r["conds"][0]["perc"] += 50
    else:
        r["conds"][1]["cells"] -= 1
    return o


def corrupt(rng, s, o):
    r = o["runs"][-1]
    k = rng.randrange(3)
    if k == 0:
        i = rng.randrange(len(r["cls"]))
        r["cls"][i] = "i" if r["cls"][i] == "o" else "o"
    elif k == 1:
        if not r["el"]:
            return None
        r["el"].pop()
    else:
        c = [c for c in r["conds"] if c["segs"]]
        if not c:
            return None
        g = [g for g in c[0]["segs"] if max(g["a"]) > 500]
        if not g:
            return None
        c[0]["segs"].remove(rng.choice(g))
    return o


def cost(s, o):
    n = s["n"]
    cells = n[0] * n[1] * n[2]
    return cells * (6 * s["U"] ** 3 if s["kind"] == "kuhn" else sum(s["mat"])) + cells * len(s["tc"])


CHECK = Check("C02", [Part("threads", "TraceC02.tla", gen, corrupt, cost=cost, threads=8, nproc=2),
                      Part("crowd", "TraceC02.tla", gen_crowd, corrupt_crowd, threads=8, nproc=1)],
              models=[dict(module="FloodFill.tla"), dict(module="FloodFill.tla", cfg="FloodFillNoFallback.cfg", refute="Correct"),
                      dict(module="FloodFill.tla", cfg="FloodFillOneWay.cfg", refute="Components"),
                      dict(module="FloodFill.tla", cfg="FloodFillBig.cfg", tier="thorough")],
              assumptions=["thread counts 1..16; solids on an integer lattice"])
