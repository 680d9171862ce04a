"""Condition surfaces on the lattice."""
from . import lattice as L


def rects(rng, n, U, k=None):
    out = []
    for _ in range(k or rng.randint(1, 4)):
        a = rng.randrange(3)
        b, c = (a + 1) % 3, (a + 2) % 3
        ext = rng.random() < 0.3

        def span(ax):
            lo, hi = (-U, U * n[ax] + U) if ext else (0, U * n[ax])
            step = rng.choice([1, 1, U])
            x = sorted(rng.sample(range(lo, hi + 1, step), 2)) if (hi - lo) // step >= 1 else [lo, hi]
            return x
        m = rng.random()
        if m < 0.45:
            pl = U * rng.randint(0, n[a])
        elif m < 0.6:
            pl = rng.choice([0, U * n[a]])
        elif m < 0.95:
            pl = rng.randint(0, U * n[a])
        else:
            pl = rng.choice([-1, U * n[a] + 1])
        u, v = span(b), span(c)
        out.append([a + 1, rng.choice([-1, 1]), pl, u[0], u[1], v[0], v[1]])
    return out


def condition(rng, n, U, cid):
    """A rectangle list or the boundary of a Kuhn body."""
    if rng.random() < 0.7:
        return dict(id=cid, rects=rects(rng, n, U))
    b = L.kuhn_body(rng, n, U)
    if b["N"][0] * b["N"][1] * b["N"][2] > 12:
        return dict(id=cid, rects=rects(rng, n, U))
    b["id"] = cid
    return b


def conditions(rng, n, U, mx=3, mn=0):
    ids = rng.sample(range(1, 50), mx)
    return [condition(rng, n, U, ids[i]) for i in range(rng.randint(mn, mx))]
