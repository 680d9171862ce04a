from ..check import Check, Part
from .. import lattice as L
from .q01 import settings

METHODS = {"Gauss": 0, "Gauss_Reduced1": 1, "Gauss_Reduced2": 2}


def full_body(rng, n, U):
    """A box that contains the whole grid (or most of it) conformingly or with overhang."""
    pl = []
    for a in range(3):
        lo, hi = rng.choice([0, 0, -1, -U, -3]), U * n[a] + rng.choice([0, 0, 1, U, 5])
        if n[a] > 1 and rng.random() < 0.2:
            lo = U
        pl.append([lo, hi])
    return dict(kind="box", planes=pl, mat=[1])


def gen(rng, tier):
    k = 1 if tier == "quick" else 8
    combos = [(m, p) for m in METHODS for p in range(1, 10) if p >= max(1, METHODS[m])]
    out = []

    def add(n, p, m, body=None):
        s = dict(ev="full", n=n, U=4, p=p, method=m, diag=rng.randrange(65536))
        s.update(body or full_body(rng, n, 4))
        L.scale(rng, s, None)
        settings(rng, s)
        np_ = [x + 1 - METHODS[m] for x in p]
        s["kmax"] = 2 * max(np_) - 1
        top = [2 * x - 1 for x in np_]
        s["mono"] = [[0, 0, 0], top, [top[0], 0, 0], [0, top[1], top[2]]] + [[rng.randint(0, t) for t in top] for _ in range(4)]
        out.append(s)

    # every order in every direction for every rule
    for m, p in combos:
        for a in range(3):
            q = [rng.randint(max(1, METHODS[m]), 3) for _ in range(3)]
            q[a] = p
            add([rng.randint(1, 2) for _ in range(3)], q, m)
    if True:    # all anisotropic combinations of small orders
        for m in METHODS:
            lo = max(1, METHODS[m])
            for p0 in range(lo, 5):
                for p1 in range(lo, 5):
                    for p2 in range(lo, 5):
                        if tier == "thorough" or rng.random() < 0.35:
                            add([1, 1, 1] if rng.random() < 0.8 else [2, 1, 2], [p0, p1, p2], m)
    for _ in range(60 * k):
        m = rng.choice(list(METHODS))
        lo = max(1, METHODS[m])
        n = L.grid(rng, 3, 12)
        # orders of trimmed elements are costly: orders up to two for general bodies
        body = L.box_body(rng, n, 4, "conf")
        s = dict(n=n, U=4)
        s.update(body)
        if L.fits(s):
            add(n, [rng.randint(lo, max(2, lo)) for _ in range(3)], m, body)
    for _ in range(20 * k):
        m = rng.choice(list(METHODS))
        lo = max(1, METHODS[m])
        add(L.grid(rng, 5, 30), [rng.randint(lo, 4) for _ in range(3)], m)
    return out


def corrupt(rng, s, o):
    e = [x for x in o["el"] if x["t"] == 0]
    if not e:
        return None
    e = rng.choice(e)
    k = rng.randrange(4)
    if k == 0:
        e["mom"][rng.randrange(len(e["mom"]))] += 1000
    elif k == 1:
        e["pts"][0][rng.randrange(3)] += 40
    elif k == 2:
        e["pb"][rng.randrange(6)] += 1
    else:
        e["ax"][rng.randrange(3)][0] -= 100
    return o


def cost(s, o):
    return sum(x["np"] for x in o.get("el", [])) * 3 + 20


CHECK = Check("Q02", [Part("full", "TraceQ02.tla", gen, corrupt, cost=cost)],
              assumptions=["orders 1..9 (the supported tables)"])
