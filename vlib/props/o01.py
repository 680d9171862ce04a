from ..check import Check, Part
from .. import lattice as L


def ops(rng, top):
    out = []
    last = (0, 0)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.7:      # the usual course: levels grow
            mn = rng.randint(last[0], top)
            mx = rng.randint(max(mn, last[1]), top)
            last = (mn, mx)
        else:
            mn, mx = rng.randint(0, top), rng.randint(0, top)
        out.append(dict(op="refine", mn=mn, mx=mx))
        if rng.random() < 0.6:
            n = rng.choice([[1, 1, 1], [1, 1, 1], [2, 1, 1], [1, 2, 2], [1, 3, 1], [2, 2, 2], [1, 1, 4]])
            out.append(dict(op="points", n=n, add=rng.randrange(2)))
    out.append(dict(op="points", n=[1, 1, 1], add=0))
    return out


def gen(rng, tier, kuhn):
    out = []
    num = (160 if kuhn else 260) * (1 if tier == "quick" else 8)
    while len(out) < num:
        n = L.grid(rng, 2, 4)
        U = 4
        b = L.kuhn_body(rng, n, U) if kuhn else L.box_body(rng, n, U, rng.choice(["inner", "off", "ext", "any", "half"]))
        s = dict(ev="octree", n=n, U=U, p=[1, 1, 1], diag=rng.randrange(65536))
        s.update(b)
        L.scale(rng, s)
        if not L.fits(s):
            continue
        s["cell"] = [rng.randrange(x) for x in n]
        s["mintri"] = rng.choice([1, 12, 100])
        top = 2 if kuhn else rng.choice([2, 3, 3])
        root = [[0, 0, 0], [U, U, U]]
        if rng.random() < 0.4:
            for a in range(3):
                if kuhn:
                    w = rng.choice([1, 2, 4])
                    root[0][a] = rng.randint(0, U - w)
                    root[1][a] = root[0][a] + w
                else:
                    root[0][a], root[1][a] = sorted(rng.sample(range(U + 1), 2))
            if kuhn:
                top = min({1: 0, 2: 1, 4: 2}[root[1][a] - root[0][a]] for a in range(3))
        s["root"] = root
        s["ops"] = ops(rng, top)
        out.append(s)
    return out


def corrupt(rng, s, o):
    if not o["dom"]:
        return None
    k = rng.randrange(len(s["ops"]))
    r = o["r"][k]
    if s["ops"][k]["op"] == "refine":
        f = rng.choice(["ok", "leafs", "nodes", "mn", "mx"])
        r[f] = 1 - r[f] if f == "ok" else r[f] + 1
        return o
    if not r["pts"]:
        return None
    j = rng.randrange(len(r["pts"]))
    m = rng.randrange(4)
    if m == 0:
        r["pts"][j][rng.randrange(3)] += 20000
    elif m == 1:
        r["pts"][j][3] = r["pts"][j][3] * 8
    elif m == 2:
        del r["pts"][j]
        if s["ops"][k]["n"] != [1, 1, 1]:
            return None
        r["np"] -= 1
        return None
    else:
        r["kept"] = 0
    return o


CHECK = Check("O01", [Part("boxes", "TraceO01.tla", lambda r, t: gen(r, t, False), corrupt),
                      Part("kuhn", "TraceO01.tla", lambda r, t: gen(r, t, True), corrupt)],
              models=[dict(module="OctreeGen.tla")],
              assumptions=["solids on an integer lattice, boxes with lattice coordinates up to a subdivision of eight"])
