from ..check import Check, Part


def problem(rng, m, n):
    """A problem with an optimal point x of integers: r is the residual, x uses columns orthogonal to it, the other columns do
    not point towards it."""
    r = [0] * m
    kind = rng.randrange(4)
    rows = list(range(m))
    rng.shuffle(rows)
    pairs = []
    if kind:
        for k in range(0, m - 1, 2):
            if rng.random() < (0.3, 0.7, 1.0)[kind - 1]:
                p, q = rng.choice([(1, 1), (1, -1), (2, 1), (-1, 3), (1, 0), (-2, 0)])
                r[rows[k]], r[rows[k + 1]] = p, q
                pairs.append((rows[k], rows[k + 1], p, q))
    full = rng.random() < 0.5
    A, x = [], []
    for _ in range(n):
        c = [rng.randint(-3, 3) if full or rng.random() < 0.4 else 0 for _ in range(m)]
        if A and rng.random() < 0.05:
            c = list(rng.choice(A))     # columns may be equal, or of opposite direction
            if rng.random() < 0.5:
                c = [-v for v in c]
        use = rng.random() < min(0.8, rng.choice([0.5, 1.5]) * m / n)
        if use or rng.random() < 0.1:
            for i, j, p, q in pairs:
                k = rng.choice([-1, 0, 1])
                c[i], c[j] = q * k, -p * k
        if sum(u * v for u, v in zip(c, r)) > 0:
            c = [-v for v in c]
        x.append(rng.choice([1, 1, 2, 3, 7]) if use and sum(u * v for u, v in zip(c, r)) == 0 else 0)
        A.append(c)
    b = [r[i] + sum(A[j][i] * x[j] for j in range(n)) for i in range(m)]
    return A, b, x


# the last column depends on the others; what round-off leaves of it must not be used
DEPENDENT = dict(ev="nnls", A=[[0, -1, -1, 0], [0, 3, -2, 1], [0, -3, 3, -1], [0, 0, 0, -1]], b=[1, -3, 0, 0], x=[3, 3, 3, 0], sb=0, room=0)


def gen(rng, tier):
    out = [dict(DEPENDENT, sa=sa) for sa in (15, 0, -7)]
    for k in range(700 if tier == "quick" else 8000):
        m = rng.choice([1, 2, 3, 4, 6, 8, 12, 18, 27, 40] if k % 3 else [1, 2, 3, 4, 5])
        n = rng.choice([1, 2, 3, m, m, 2 * m, 3 * m + 1, 5 * m])
        A, b, x = problem(rng, m, min(n, 90))
        if k % 5 == 4:
            A, b = small(rng, A, b)
            x = best(A, b)
            if x is None:
                continue
        out.append(dict(ev="nnls", A=A, b=b, x=x, sa=rng.choice([0, 0, -20, 15, -30]), sb=rng.choice([0, 0, 0, -40, 20]), room=rng.choice([0, len(x), 3, 200])))
    return out


def small(rng, A, b):
    m = rng.randint(1, 3)
    return [[rng.randint(-2, 2) for _ in range(m)] for _ in range(rng.randint(1, 4))], [rng.randint(-4, 4) for _ in range(m)]


def best(A, b):
    """An optimal point of small integers, if there is one."""
    import itertools
    m, n = len(b), len(A)
    for x in itertools.product(range(4), repeat=n):
        r = [b[i] - sum(A[j][i] * x[j] for j in range(n)) for i in range(m)]
        w = [sum(u * v for u, v in zip(c, r)) for c in A]
        if all(v <= 0 and (v == 0 or x[j] == 0) for j, v in enumerate(w)):
            return list(x)
    return None


def corrupt(rng, s, o):
    k = rng.randrange(5)
    if k == 0:
        o["fit"][rng.randrange(len(o["fit"]))] += 1
    elif k == 1:
        o["r2"] += 1
    elif k == 2:
        o["neg"] += 1
    elif k == 3:
        o["len"] -= 1
    else:
        o["pos"] = len(s["b"]) + 1
    return o


def gen_random(rng, tier):
    out = []
    for k in range(1500 if tier == "quick" else 15000):
        m, n = rng.randint(1, 9), rng.randint(1, 24)
        lo = rng.choice([0, -1, -2, -2, -4])
        A = [[rng.randint(lo, 3) for _ in range(m)] for _ in range(n)]
        c = [rng.randint(-1, 2) for _ in range(m)]
        b = [rng.randint(-2, 6) for _ in range(m)] if rng.random() < 0.6 else [3 * v for v in c]
        if k % 3:
            m, n = rng.randint(5, 10), rng.randint(12, 24)
            A = [[rng.randint(-7, 13) for _ in range(m)] for _ in range(n)]
            b = [rng.randint(-3, 17) for _ in range(m)]
        out.append(dict(ev="nnlsx", A=A, b=b, sa=rng.choice([0, 0, -20, 15]), sb=rng.choice([0, 0, -30, 20])))
    return out


def corrupt_random(rng, s, o):
    k = rng.randrange(4)
    if k == 0:
        o["neg"] += 1
    elif k == 1:
        o["x"].append(0)
    elif k == 2:
        o["pos"] = len(s["b"]) + 1
    else:
        o["r"] = 5000 + 2 * o["r"]
        o["big"] = False
    return o


CHECK = Check("N01", [Part("random", "TraceN01x.tla", gen_random, corrupt_random, cost=lambda s, o: 1 + len(s["A"]) * len(s["A"]) // 50),
                      Part("problems", "TraceN01.tla", gen, corrupt, cost=lambda s, o: 1 + len(s["A"]) * len(s["b"]) // 50)],
              models=[dict(module="NnlsWalk.tla"), dict(module="NnlsWalk.tla", cfg="NnlsWalkBig.cfg", tier="thorough"),
                      dict(module="NnlsWalk.tla", cfg="NnlsWalkClip.cfg", refute="Closer")],
              assumptions=["problems whose optimal fit has integer entries"])
