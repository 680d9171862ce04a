from ..check import Check, Part
from .. import lattice as L
from .q01 import UVW

METHODS = {"GGQ_Optimal": 0, "GGQ_Reduced1": 1, "GGQ_Reduced2": 2}


def gen1(rng, tier):
    out = []
    top = 110 if tier == "quick" else 160
    for m, red in METHODS.items():
        for p in (2, 3, 4):
            for e in range(1, top + 1):
                out.append(dict(ev="ggq1d", p=p, e=e, method=m, mmax=2 * p))
    return out


def corrupt1(rng, s, o):
    k = rng.randrange(3)
    if k == 0:
        o["np"] += 1
    elif k == 1:
        r = rng.randrange(len(o["err"]))
        o["err"][r][2 * s["p"] - METHODS[s["method"]]] = 1000
    else:
        o["out"] = 1
    return o


def factor(rng, n, p, red):
    d = 2 * p - red
    side = rng.choice([1, -1])
    k = rng.randint(0, n - 1)
    m = rng.randint(0 if k == 0 else p - 1, d)
    if rng.random() < 0.3:
        k, m = 0, 0
    if side < 0:
        # k - x: knots from the other side; the plain powers start at knot n
        return [n - k if k else n, m, -1] if k else [0, m, 1]
    return [k, m, 1]


def tests(rng, n, p, red, cnt):
    out = []
    for a in range(3):      # one factor at a time at the highest degree, every knot
        for k in range(n[a]):
            t = [[0, 0, 1] for _ in range(3)]
            t[a] = [k, 2 * p[a] - red, 1]
            out.append(t)
    for _ in range(cnt):
        out.append([factor(rng, n[a], p[a], red) for a in range(3)])
    return out


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []

    def add(s):
        s["ev"] = "ggq"
        s["method"] = rng.choice(list(METHODS))
        s["p"] = [rng.randint(2, 4) for _ in range(3)] if rng.random() < 0.5 else [rng.choice([2, 2, 3])] * 3
        if s.pop("hastrim"):
            s["p"] = [2, 2, 2]
        s["grid"] = "b_spline_grid"
        if rng.random() < 0.6:
            s["uvw"] = rng.choice([u for u in UVW if u])
        s["residual"] = 1e-4
        s["min_tri"] = 1
        s["tests"] = tests(rng, s["n"], s["p"], METHODS[s["method"]], 20)
        out.append(s)

    # patterns of full cells: the body consists of complete cells
    for i in range(500 * k):
        n = L.grid(rng, rng.choice([3, 4, 6]), 60)
        pl = [[4 * x for x in range(n[a] + 1)] for a in range(3)]
        s = dict(n=n, U=4, kind="box", planes=pl, mat=L.fill(rng, n), diag=rng.randrange(65536), hastrim=False)
        L.scale(rng, s, None)
        add(s)
    # every pattern of a 2x2x2 grid, of a row and of a 3x3x1 layer
    pat = [([2, 2, 2], m) for m in range(1, 256)] + [([6, 1, 1], m) for m in range(1, 64)] + [([1, 3, 3], m) for m in range(1, 512)]
    if tier == "quick":
        pat = rng.sample(pat, 200)
    for n, m in pat:
        q = rng.sample(range(3), 3)
        n = [n[i] for i in q]
        pl = [[4 * x for x in range(n[a] + 1)] for a in range(3)]
        s = dict(n=n, U=4, kind="box", planes=pl, mat=[(m >> b) & 1 for b in range(n[0] * n[1] * n[2])], diag=m, hastrim=False)
        L.scale(rng, s, None)
        add(s)
    # full cells among trimmed ones
    for i in range(120 * k):
        s = L.body_scenario(rng, "ggq", mx=4, total=24, mode=rng.choice(["half", "any", None]), nb=3, kind=rng.choice([None, "dense", "solid"]))
        s["hastrim"] = True
        add(s)
    return out


def corrupt(rng, s, o):
    k = rng.randrange(4)
    if k == 0:
        o["w"] += 1000
    elif k == 1:
        o["out"] = 2
    elif k == 2:
        i = rng.randrange(len(o["err"]))
        if any(t[1] > 2 * s["p"][a] - METHODS[s["method"]] for a, t in enumerate(s["tests"][i])):
            return None
        o["err"][i] = 5000
    elif o["full"]:
        o["full"].pop()
    else:
        return None
    return o


CHECK = Check("Q03", [Part("rules-1d", "TraceQ03.tla", gen1, corrupt1), Part("models", "TraceQ03.tla", gen, corrupt)],
              models=[dict(module="GGQBoxes.tla"), dict(module="GGQBoxes.tla", cfg="GGQBoxesWrap.cfg", refute="BoxShape"),
                      dict(module="GGQBoxes.tla", cfg="GGQBoxesBig.cfg", tier="thorough")],
              assumptions=["splines are represented by one-sided powers at the knots; relative errors up to 1e-7 (1e-8 for the one-dimensional rules) count as exact"])
