from ..check import Check, Part
from .d02 import PYDRV


def scenario(rng, k):
    big = k % 12 == 11
    n = [rng.choice([1, 1, 2, 3, 4, 5, 6, 8]) for _ in range(3)]
    if big:
        n[rng.randrange(3)] = rng.choice([25, 64, 101, 200])
    p = [rng.randint(1, 5) for _ in range(3)]
    X0, X1, U0, U1 = [], [], [], []
    for d in range(3):
        for lo, up in ((X0, X1), (U0, U1)):
            c = rng.randrange(4)
            if c == 0:
                a, l = 0.0, 1.0
            elif c == 1:
                a, l = float(rng.randint(-20, 20)), float(rng.randint(1, 30))
            else:
                l = 10 ** rng.choice([rng.uniform(-3, 3), rng.uniform(-8, -3), rng.uniform(3, 7)])
                a = rng.uniform(-10, 10) * l
            lo.append(a)
            up.append(a + l)
    return dict(ev="spline", grid=rng.choice(["b_spline_grid", "b_spline_grid", "hexahedral_fe_grid"]) if k % 3 else "b_spline_grid",
                n=n, p=p, X0=X0, X1=X1, U0=U0, U1=U1, knots=rng.choice(["open_knot_vector", "non_open_knot_vector"]),
                via=rng.randrange(2), run=int(k % 4 == 0 and not big and max(n) <= 4 and max(p) <= 3),
                pick=[rng.randrange(10 ** 6) for _ in range(24)])


def gen(rng, tier):
    out = []
    for k in range(300 if tier == "quick" else 6000):
        s = scenario(rng, k)
        if s["grid"] == "hexahedral_fe_grid" and s["run"]:
            s["run"] = 0
        out.append(s)
    return out


def corrupt(rng, s, o):
    k = rng.randrange(7)
    if k == 0:
        r = rng.choice(o["t"])
        r[rng.randrange(len(r))] += 1
    elif k == 1:
        r = rng.choice(o["sc"])
        r[rng.randrange(len(r))] -= 1
    elif k == 2:
        rng.choice(o["pts"])[1 + rng.randrange(3)] += 1
    elif k == 3:
        rng.choice(o["mat"])[3 + rng.randrange(3)] += 1
    elif k == 4:
        rng.choice(o["curve"])[2] += 1
    elif k == 5:
        o["num"][rng.randrange(3)] += 1
    else:
        rng.choice(o["vol"])[3 + rng.randrange(3)] += 1
    return o


CHECK = Check("V01", [Part("spline", "TraceV01.tla", gen, corrupt, cmd=PYDRV)],
              models=[dict(module="SplineVolGen.tla"), dict(module="SplineVolGen.tla", cfg="SplineVolBig.cfg", tier="thorough")],
              python=True,
              assumptions=["intervals up to twenty times their length away from zero; values compared to 1e-5 of a cell",
                           "orders 1 to 5, up to 200 spans"])
