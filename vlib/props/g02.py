from .. import core
from ..check import Check, Part


def gen(rng, tier):
    num = 400 if tier == "quick" else 6000
    out = []
    for b in core.behaviours("ElementStoreGen.tla", "ElementStoreSim.cfg", num, 61, core.SEED):
        out.append(dict(ev="store", n=b["n"], ops=b["ops"]))
    return out


def corrupt(rng, s, o):
    k = rng.randrange(len(o["r"]))
    r = o["r"][k]
    if not r:
        o["r"][k] = [11]
    else:
        i = rng.randrange(len(r))
        r[i] += rng.choice([-1, 1, 2])
    return o


def race(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        n = [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)]
        N = n[0] * n[1] * n[2]
        out.append(dict(ev="storerace", n=n, threads=[[[rng.randint(1, N), rng.randint(1, 2)] for _ in range(rng.randint(1, 12))]
                                                      for _ in range(rng.randint(2, 6))]))
    return out


def corrupt_race(rng, s, o):
    t = rng.choice(o["r"])
    i = rng.randrange(len(t))
    t[i] = -t[i]
    return o


CHECK = Check("G02", [Part("histories", "TraceG02.tla", gen, corrupt),
                      Part("concurrent adds", "TraceG02.tla", race, corrupt_race, threads=6, nproc=2)],
              models=[dict(module="ElementStoreGen.tla")],
              assumptions=["lookups of next elements start from an id of the grid"])
