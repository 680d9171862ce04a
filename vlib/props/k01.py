from .. import core
from ..check import Check, Part

SIZES = [1.0, 1.0, 0.125, 0.37, 1000.0, 2e-6, 1e5]


def gen(rng, tier):
    num = 400 if tier == "quick" else 4000
    out = []
    for b in core.behaviours("MeshOpsGen.tla", "MeshOpsSim.cfg", num, 10, core.SEED):
        ops = []
        # the same history anywhere in space, also on the negative side of the planes
        far = rng.choice([(0, 0, 0), tuple(8 * rng.randint(-9, 3) for _ in "xyz"), tuple(8 * rng.randint(-9, 3) for _ in "xyz")])
        at = lambda p: [p[i] + far[i] for i in range(3)]
        for op in b["ops"]:
            op = dict(op, **{k: at(op[k]) for k in ("lo", "hi") if k in op}, **({"p": [at(x) for x in op["p"]]} if "p" in op else {}))
            ops.append(op)
            if rng.random() < 0.4:
                ops.append(dict(op="look", r=op["r"]))
        ops.append(dict(op="look", r=ops[-1]["r"]))
        out.append(dict(ev="meshops", h=rng.choice(SIZES), ops=ops, threads=rng.choice([1, 4])))
    return out


def corrupt(rng, s, o):
    k = rng.choice([i for i, op in enumerate(s["ops"]) if op["op"] == "look"])
    r = o["r"][k]
    a = r["m"][s["ops"][k]["r"] - 1]
    if not a["t"]:
        return None
    j = rng.randrange(8)
    if j == 0:
        r["vol"] += 40
    elif j == 1:
        r["area"] += 4 * r["n"] + 2
    elif j == 2:
        r["hi"][rng.randrange(3)] += 1
    elif j == 3:
        r["views"] = 1
    elif j == 4:
        t = rng.choice(a["t"])
        t[0], t[1] = t[1], t[0]
        if t[0] == t[1]:
            return None
    elif j == 5:
        a["chk"] = 0
    elif j == 6:
        a["t"].append(a["t"][0])
    else:
        r["vd"][0] += 50
    return o


def gen_rules(rng, tier):
    out = []
    while len(out) < (250 if tier == "quick" else 2500):
        p = [[rng.randint(-8, 8) for _ in range(3)] for _ in range(3)]
        u = [p[1][a] - p[0][a] for a in range(3)]
        v = [p[2][a] - p[0][a] for a in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        if not any(n):
            continue
        out.append(dict(ev="trirule", p=p, method=rng.randrange(5), deg=6, off=rng.randrange(2), h=rng.choice(SIZES + [1e-3])))
    return out


def corrupt_rules(rng, s, o):
    k = rng.randrange(3)
    if k == 0:
        m = [e for e in o["mom"] if sum(e[:3]) <= 1]
        rng.choice(m)[3] += 100000
    elif k == 1:
        o["c3"][rng.randrange(3)] += 1
    else:
        o["badn"] = 1
    return o


def gen_big(rng, tier):
    out = []
    for _ in range(10 if tier == "quick" else 60):
        lo = [rng.randint(-30, 5) for _ in range(3)]
        out.append(dict(ev="bigmesh", lo=lo, hi=[x + rng.randint(1, 20) for x in lo], h=rng.choice(SIZES), nt=rng.choice([100, 2000, 20000, 60000]),
                        threads=rng.choice([2, 4, 8, 8, 16]), rep=30))
    return out


def corrupt_big(rng, s, o):
    o["p"][rng.randrange(len(o["p"]))][rng.randrange(2)] += 1000 if rng.random() < 0.5 else -500
    return o


CHECK = Check("K01", [Part("histories", "TraceK01.tla", gen, corrupt), Part("rules", "TraceK01.tla", gen_rules, corrupt_rules),
                      Part("many", "TraceK01.tla", gen_big, corrupt_big, threads=8, nproc=1)],
              models=[dict(module="MeshOpsGen.tla"), dict(module="MeshOpsGen.tla", cfg="MeshOpsGenBig.cfg", tier="thorough")],
              assumptions=["meshes with lattice coordinates (1/8 lattice after up to three refinements), uniform scalings"])
