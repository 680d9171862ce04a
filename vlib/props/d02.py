import os
from .. import core
from ..check import Check, Part

PYDRV = ["/usr/bin/python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pydrv.py")]


def gen(rng, tier):
    num = 240 if tier == "quick" else 6000
    return [dict(ev="pydict", ops=b["ops"]) for b in core.behaviours("DictStoreGen.tla", "DictStoreJson.cfg", num, 51, core.SEED)]


def corrupt(rng, s, o):
    k = rng.randrange(4)
    if k == 0:
        r = rng.choice(o["r"])
        r["a"] = [-1] if r["a"] != [-1] else [0]
    elif k == 1:
        o["init"].pop(rng.randrange(len(o["init"])))
    elif k == 2:
        g = [x for x in o["r"] if x["doc"]]
        if not g:
            return None
        x = rng.choice(rng.choice(g)["doc"])
        x[2] = 0 if x[2] else 1
    else:
        g = [x for x in o["r"] if x["add"]]
        if not g:
            return None
        rng.choice(g)["add"].pop()
    return o


CHECK = Check("D02", [Part("through-json", "TraceD02.tla", gen, corrupt, cmd=PYDRV)],
              models=[dict(module="DictStoreGen.tla")], python=True,
              assumptions=["real numbers are written with ten significant digits",
                           "a text equal to the marker \"Not Set.\" cannot be told from an unset value",
                           "values from pools of representatives of each type"])
