import struct
from .. import lattice as lt
from ..check import Check, Part

SC = lt.SCALES + [dict(lower=[0.0, 0.0, 0.0], h=[1e-5, 2e-5, 1e-5]), dict(lower=[3e5, -2e6, 0.0], h=[4e5, 3e5, 1e6])]


def soup(rng, n):
    """Triangles of a small lattice: shared, repeated, flipped, now and then degenerate."""
    t = []
    pts = [[rng.randint(-6, 6) for _ in range(3)] for _ in range(rng.randint(3, 3 + n))]
    while len(t) < n:
        p = [list(rng.choice(pts)) for _ in range(3)]
        if len({tuple(x) for x in p}) < 3 and rng.random() < 0.9:
            continue
        t.append(p)
        if rng.random() < 0.1:
            t.append([p[0], p[2], p[1]])
    return t


def base(rng, n, k=None):
    s = dict(ev="stl", U=4, tris=soup(rng, n), view=rng.randrange(2))
    s.update(SC[rng.randrange(len(SC)) if k is None else k])
    return s


def X(s, a, c):
    lo, h = s.get("lower", [0.0] * 3), s.get("h", [1.0] * 3)
    return lo[a] + h[a] * (c / s["U"])


def number(rng, kind, v):
    return {"f": "%.12f", "e": "%.10e", "E": "%.10E", "g": "%.10g", "+": "%+.10e", "long": "%.20f", "r": "%r"}[kind] % v


NAMES = ["solid", "solid part", "solid facet of a cube", "solid facet normal outer loop", "solid ends here: endsolid",
         "solid  QuESo  ", "solid Vertex", "solid endloop"]


def text(rng, s):
    eol = rng.choice(["\n", "\r\n", "\n"])
    ind = rng.choice(["", "  ", "\t"])
    kind = rng.choice(["f", "e", "E", "g", "+", "long", "r"])
    small = max(abs(x) for x in s.get("h", [1.0])) < 1e-3
    if small and kind == "f":
        kind = "e"
    trail = rng.choice(["", "", " "])
    sep = rng.choice([" ", "  ", "\t"])
    out = [rng.choice(NAMES)]
    for t in s["tris"]:
        nrm = rng.choice([["0", "0", "0"], ["1", "0", "0"], ["-0.577", "5e-1", "nan"], ["0.0", "0.0", "1.0"]])
        out.append(ind + "facet normal " + " ".join(nrm) + trail)
        out.append(ind * 2 + "outer loop" + trail)
        for p in t:
            out.append(ind * 3 + "vertex" + sep + sep.join(number(rng, kind, X(s, a, p[a])) for a in range(3)) + trail)
        out.append(ind * 2 + "endloop")
        out.append(ind + "endfacet")
    out.append("endsolid" + rng.choice(["", " part"]))
    return eol.join(out) + rng.choice(["", eol, eol + eol])


def binary(rng, s):
    head = rng.choice([b"", b"solid", b"solid binary part", b"solid facet normal", b"exported facet", b"\xff" * 80, b"facet"])
    fill = rng.choice([b"\0", b" "])
    h = (head + fill * 80)[:80]
    b = h + struct.pack("<I", len(s["tris"]))
    for t in s["tris"]:
        n = rng.choice([(0, 0, 0), (1, 0, 0), (float("nan"), float("inf"), -1)])
        b += struct.pack("<3f", *n)
        for p in t:
            b += struct.pack("<3f", *(X(s, a, p[a]) for a in range(3)))
        b += struct.pack("<H", rng.choice([0, 0, 1, 65535]))
    if rng.random() < 0.3:
        b += bytes(rng.randrange(256) for _ in range(rng.randint(1, 60)))
    return b.hex()


def damages(rng, src, thorough):
    d = [dict(k="trunc")]
    vals = [rng.randrange(256) for _ in range(4 if thorough else 1)] + [-rng.randint(1, 8)]
    if src in ("ascii", "text"):
        vals += [rng.choice([10, 32, 46, 45, 101, 48 + rng.randrange(10)]), 10, 32]
        d.append(dict(k="line", junk=rng.choice(["\n", "vertex 1 2\n", "vertex a b c\n", "facet normal 0 0 1\n", "junk\n", "vertex 1e99 0 0\n",
                                                 "vertex nan 0 0\n", "endsolid\n", "endloop\n", "vertex 0 0 inf\n"])))
    else:
        vals += [0, 255, 127]
    d.append(dict(k="byte", vals=vals))
    return d


def gen(rng, tier):
    out = []
    thorough = tier != "quick"
    for i in range(40 if not thorough else 400):
        for src in ("ascii", "binary", "text", "hex"):
            s = base(rng, rng.choice([0, 1, 1, 2, 2, 3]))
            s["src"] = src
            if src == "text":
                s["text"] = text(rng, s)
            elif src == "hex":
                s["hex"] = binary(rng, s)
            s["dmg"] = damages(rng, src, thorough)
            out.append(s)
    # good files of more triangles
    for i in range(60 if not thorough else 600):
        src = ("ascii", "binary", "text", "hex")[i % 4]
        s = base(rng, rng.choice([5, 12, 40, 120]))
        s["src"] = src
        if src == "text":
            s["text"] = text(rng, s)
        elif src == "hex":
            s["hex"] = binary(rng, s)
        out.append(s)
    return out


def corrupt(rng, s, o):
    r = o["outs"][0]
    if not s["tris"]:
        return None
    k = rng.randrange(5)
    if k == 0:
        r["t"] = r["t"][:-1]
    elif k == 1:
        rng.choice(r["t"])[rng.randrange(3)][rng.randrange(3)] += 1
    elif k == 2:
        r["idx"] = 0
    elif k == 3:
        r["nv"] += 1
    else:
        r["st"] = "err"
    return o


# files at and beyond one and several buffers of the writer (84 + 50 * 2 k^2 bytes)
def gen_big(rng, tier):
    ks = [102, 103, 110, rng.randint(104, 144)] if tier == "quick" else [1, 50] + list(range(100, 108)) + [144, 145, 146, 177, 178, 205, 260]
    return [dict(ev="bigfile", k=k, what="stl", enc=e) for k in ks for e in ("binary", "ascii")]


def corrupt_big(rng, s, o):
    o[rng.choice(["differ", "back"])] = 1
    return o


CHECK = Check("I01", [Part("files", "TraceI01.tla", gen, corrupt), Part("large", "TraceI01.tla", gen_big, corrupt_big)],
              models=[dict(module="StlParse.tla"), dict(module="StlParse.tla", cfg="StlParseTwo.cfg", tier="thorough"),
                      dict(module="StlParse.tla", cfg="StlParseLax.cfg", refute="Complete"),
                      dict(module="StlParse.tla", cfg="StlParseName.cfg", refute="Accepts")],
              assumptions=["lattice meshes whose coordinates fit single precision relative to the lattice width",
                           "one damage per file in the conformance part (two in the design model, thorough)"])
