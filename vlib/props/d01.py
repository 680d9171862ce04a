from .. import core
from ..check import Check, Part


def gen(rng, tier):
    num = 240 if tier == "quick" else 6000
    return [dict(ev="dict", ops=b["ops"]) for b in core.behaviours("DictStoreGen.tla", "DictStoreSim.cfg", num, 61, core.SEED)]


def corrupt(rng, s, o):
    k = rng.randrange(5)
    r = rng.choice(o["r"])
    if k == 0:
        r["a"] = [-1] if r["a"] != [-1] else [0]
    elif k == 1:
        r["add"].append(["S/general_settings", "echo_level", 3])
    elif k == 2:
        o["init"].pop(rng.randrange(len(o["init"])))
    elif k == 3:
        g = [x for x in o["r"] if x["a"][0] == 1 and len(x["a"]) == 2]
        if not g:
            return None
        rng.choice(g)["a"][1] += 1
    else:
        g = [x for x in o["r"] if x["add"]]
        if not g:
            return None
        rng.choice(g)["add"].pop()
    return o


CHECK = Check("D01", [Part("histories", "TraceD01.tla", gen, corrupt)],
              models=[dict(module="DictStoreGen.tla"), dict(module="DictStoreGen.tla", cfg="DictStoreGenBig.cfg", tier="thorough")],
              assumptions=["values from pools of representatives of each type", "the library is built with its assertions on, as the repository builds it"])
