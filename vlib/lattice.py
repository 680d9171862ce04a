"""Scenario generators: lattice solids, grids and settings."""
import itertools

SCALES = [
    dict(),                                                       # unit cells at the origin
    dict(lower=[-1.3, 0.4, 2.0], h=[0.7, 1.0, 1.9]),              # anisotropic, off origin
    dict(lower=[100.0, -250.0, 40.0], h=[10.0, 25.0, 8.0]),
    dict(lower=[-1000.0, 2000.0, 3000.0], h=[130.0, 55.0, 210.0]),
    dict(lower=[-0.002, 0.001, 0.0], h=[0.001, 0.0015, 0.0008]),
    dict(lower=[1.0 / 3, -2.0 / 7, 0.1], h=[1.0 / 3, 1.0 / 7, 0.1]),  # cell planes are not exactly representable
]


def scale(rng, s, k=None):
    s.update(SCALES[rng.randrange(len(SCALES)) if k is None else k])
    return s


def planes(rng, n, U, mode, nb):
    """Plane coordinates on one axis with n cells: nb intervals at most."""
    if mode == "conf":        # on cell boundaries
        c = list(range(0, U * n + 1, U))
    elif mode == "half":
        c = list(range(0, U * n + 1, U // 2))
    elif mode == "inner":     # strictly inside the grid
        c = list(range(1, U * n))
    elif mode == "off":       # never on a cell boundary
        c = [x for x in range(1, U * n) if x % U]
    elif mode == "ext":       # body exceeds the grid
        c = list(range(-U, U * n + U + 1))
    elif mode == "extconf":
        c = list(range(-U, U * n + U + 1, U))
    else:
        c = list(range(0, U * n + 1))
    if len(c) < 2:
        c = list(range(0, U * n + 1))
    k = min(len(c), rng.randint(2, nb + 1))
    return sorted(rng.sample(c, k))


MODES = ["conf", "half", "inner", "off", "ext", "extconf", "any"]


def fill(rng, dims, kind=None):
    """0/1 pattern over a dims[0] x dims[1] x dims[2] array (x fastest)."""
    N = dims[0] * dims[1] * dims[2]
    kind = kind or rng.choice(["rand", "rand", "rand", "dense", "sparse", "solid", "shell", "slab", "bars", "hole"])
    ijk = [(i, j, k) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])]
    if kind == "solid":
        m = [1] * N
    elif kind == "shell":     # closed cavity where there is room for one
        m = [1 if any(c == 0 or c == d - 1 for c, d in zip(t, dims)) else 0 for t in ijk]
    elif kind == "slab":
        a = rng.randrange(3)
        par = rng.randrange(2)
        m = [1 if t[a] % 2 == par else 0 for t in ijk]
    elif kind == "bars":
        a, b = rng.sample(range(3), 2)
        m = [1 if t[a] % 2 == 0 and t[b] % 2 == 0 else 0 for t in ijk]
    elif kind == "hole":      # through-hole along one axis
        a = rng.randrange(3)
        o = [x for x in range(3) if x != a]
        m = [0 if all(0 < t[x] < dims[x] - 1 for x in o) else 1 for t in ijk]
    else:
        d = {"rand": 0.5, "dense": 0.85, "sparse": 0.2}[kind]
        m = [1 if rng.random() < d else 0 for _ in ijk]
    if not any(m):
        m[rng.randrange(N)] = 1
    return m


def box_body(rng, n, U, mode=None, nb=3, kind=None):
    mode = mode or rng.choice(MODES)
    pl = [planes(rng, n[a], U, mode if rng.random() < 0.7 else rng.choice(MODES), nb) for a in range(3)]
    dims = [len(p) - 1 for p in pl]
    return dict(kind="box", planes=pl, mat=fill(rng, dims, kind))


def kuhn_body(rng, n, U, ext=None):
    s = rng.choice([1, 2, 2, 3, 4, U, 2 * U])
    ext = rng.random() < 0.3 if ext is None else ext
    lo = -U if ext else 0
    o, N = [], []
    for a in range(3):
        span = U * n[a] + (2 * U if ext else 0)
        k = min(max(1, span // s), 3)
        k = rng.randint(1, k)
        slack = max(0, span - k * s)
        o.append(lo + rng.randint(0, slack))
        N.append(k)
    cubes = fill(rng, N)
    how = rng.choice(["cubes", "half", "tets", "tets", "plane", "dense"])
    mat = []
    perms = list(itertools.permutations(range(3)))
    a = rng.randrange(3)
    b = rng.choice([x for x in range(3) if x != a])
    idx = 0
    for k in range(N[2]):
        for j in range(N[1]):
            for i in range(N[0]):
                for p in perms:
                    if how == "cubes":
                        v = cubes[idx] if rng.random() < 0.95 else 1 - cubes[idx]
                    elif how == "half":   # wedge: x_a >= x_b in every solid cube
                        v = cubes[idx] if p.index(a) < p.index(b) else 0
                    elif how == "plane":  # global inclined half space x_a - x_b >= const
                        c = (i, j, k)
                        d = c[a] - c[b]
                        v = 1 if d > 0 or (d == 0 and p.index(a) < p.index(b)) else 0
                    elif how == "dense":  # surfaces that touch cells along edges and vertices only
                        v = 1 if rng.random() < 0.93 else 0
                    else:
                        v = 1 if rng.random() < 0.5 else 0
                    mat.append(v)
                idx += 1
    if not any(mat):
        mat[rng.randrange(len(mat))] = 1
    return dict(kind="kuhn", s=s, o=o, N=N, mat=mat)


def grid(rng, mx=4, total=40):
    while True:
        n = [rng.randint(1, mx) for _ in range(3)]
        if n[0] * n[1] * n[2] <= total:
            return n


def fits(s, lim=1):
    """Body overlaps the grid (otherwise nothing is tested)."""
    n, U = s["n"], s["U"]
    if s["kind"] == "box":
        return all(s["planes"][a][0] < U * n[a] and s["planes"][a][-1] > 0 for a in range(3))
    return all(s["o"][a] < U * n[a] and s["o"][a] + s["s"] * s["N"][a] > 0 for a in range(3))


def body_scenario(rng, ev, U=4, mx=4, total=40, kuhn=0.0, mode=None, nb=3, n=None, kind=None, sc=None):
    while True:
        g = n or grid(rng, mx, total)
        if rng.random() < kuhn:
            u = 2
            b = kuhn_body(rng, g, u)
        else:
            u = U
            b = box_body(rng, g, u, mode, nb, kind)
        s = dict(ev=ev, n=g, U=u, p=[1, 1, 1], diag=rng.randrange(65536))
        s.update(b)
        scale(rng, s, sc)
        if fits(s):
            if s["kind"] == "kuhn":
                s["mani"] = manifold(s)
            return s


def exhaustive_2x2x2(ev, planes_list, n, U=4):
    """All 255 unions of the 2x2x2 boxes of the given planes."""
    for pl in planes_list:
        for m in range(1, 256):
            yield dict(ev=ev, n=list(n), U=U, p=[1, 1, 1], kind="box", planes=[list(x) for x in pl],
                       mat=[(m >> b) & 1 for b in range(8)], diag=m * 257 % 65536)


def surround(rng, ev, n):
    """A body of tetrahedra that extends beyond the grid on all sides and has few holes."""
    while True:
        U = 2
        sz = rng.choice([1, 2, 2])
        N = [-(-(U * n[a] + 2) // sz) + rng.randint(0, 1) for a in range(3)]
        if N[0] * N[1] * N[2] > 80:
            sz = 2
            N = [-(-(U * n[a] + 2) // sz) for a in range(3)]
        o = [-rng.randint(0, 2) for _ in range(3)]
        d = rng.choice([0.75, 0.9, 0.97])
        s = dict(ev=ev, n=n, U=U, p=[1, 1, 1], diag=rng.randrange(65536), kind="kuhn", s=sz, o=o, N=N,
                 mat=[1 if rng.random() < d else 0 for _ in range(6 * N[0] * N[1] * N[2])])
        scale(rng, s, None)
        if fits(s):
            return s


PERMS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def manifold(s):
    """1 if every edge of the body's boundary facets belongs to exactly two of them."""
    N, sz, o, mat = s["N"], s["s"], s["o"], s["mat"]
    facets = {}
    idx = 0
    for k in range(N[2]):
        for j in range(N[1]):
            for i in range(N[0]):
                for p in PERMS:
                    if mat[idx]:
                        v = [(i, j, k)]
                        for a in p:
                            w = list(v[-1])
                            w[a] += 1
                            v.append(tuple(w))
                        for d in range(4):
                            f = tuple(sorted(v[:d] + v[d + 1:]))
                            facets[f] = facets.get(f, 0) + 1
                    idx += 1
    edges = {}
    for f, c in facets.items():
        if c == 1:
            for d in range(3):
                e = f[:d] + f[d + 1:]
                edges[e] = edges.get(e, 0) + 1
    return int(all(c == 2 for c in edges.values()))
