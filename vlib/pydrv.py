"""Scenario runner on the Python interface: argv = input file, output file (one JSON object per line)."""
import json, os, sys, tempfile
import QuESoPythonModule as Q
from QuESoPythonModule.scripts.json_io import JsonIO

HANDLERS = {}


def handler(name):
    def deco(f):
        HANDLERS[name] = f
        return f
    return deco


# ------------------------------------------------------------------ dictionaries (pools of DictStore.tla)
I = [0, 1, 7, 100, 1000000, 5000000000]
D = [0.0, 1.0, 7.0, 100.0, 1000000.0, 5e9, -3.0, 0.1, 1e-300, -1.5e10, 1e-10, 1e-3, 0.333333333333, -4294967296.0, -8e9]
B = [False, True]
T = ["queso_output", "", "DirichletCondition", "a \"quoted\" \\ text", "\u00e4\u00f6", "Not Set."]
V = [[1, 2, 3], [0, 0, 0], [4, 4, 9]]
P = [[1.0, 2.0, 3.0], [0.0, 0.0, 0.0], [4.0, 4.0, 9.0], [-1.5, 0.25, 1e6], [1e-12, -1e-12, 0.1]]
MN = ["Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"]
GN = ["b_spline_grid", "hexahedral_fe_grid"]
M = [getattr(Q.IntegrationMethod, n) for n in MN]
G = [getattr(Q.GridType, n) for n in GN]
POOL = dict(I=I, D=D, B=B, T=T, V=V, P=P, M=M, G=G, i=I, u=I, n=[-3, -4294967296, -8000000000])
LIT = dict(I=I, i=I, n=[-3, -4294967296, -8000000000], D=D, B=B, T=T, V=V, P=P, M=MN, G=GN, W=[[1, 2]], Z=[None], O=[{}], E=[[]])
GET = dict(D="GetDouble", I="GetInt", B="GetBool", T="GetString", P="GetDoubleVector", V="GetIntVector",
           M="GetIntegrationMethod", G="GetGridType")
KIND = {
    "general_settings": "input_filename:T output_directory_name:T echo_level:I write_output_to_file:B",
    "background_grid_settings": "grid_type:G lower_bound_xyz:P upper_bound_xyz:P lower_bound_uvw:P upper_bound_uvw:P polynomial_order:V number_of_elements:V",
    "trimmed_quadrature_rule_settings": "moment_fitting_residual:D min_element_volume_ratio:D min_num_boundary_triangles:I neglect_elements_if_stl_is_flawed:B activate_fictitious_domain_with_alpha:D",
    "non_trimmed_quadrature_rule_settings": "integration_method:M",
    "conditions_settings_list": "condition_id:I condition_type:T input_filename:T modulus:D direction:P value:P penalty_factor:D",
    "embedded_geometry_info": "is_closed:B volume:D",
    "quadrature_info": "represented_volume:D percentage_of_geometry_volume:D tot_num_points:I num_of_points_per_full_element:D num_of_points_per_trimmed_element:D",
    "background_grid_info": "num_active_elements:I num_trimmed_elements:I num_full_elements:I num_inactive_elements:I",
    "elapsed_time_info": "total:D",
    "volume_time_info": "total:D classification_of_elements:D computation_of_intersections:D solution_of_moment_fitting_eqs:D construction_of_ggq_rules:D",
    "conditions_time_info": "total:D", "write_files_time_info": "total:D",
    "conditions_infos_list": "condition_id:I surf_area:D perc_surf_area_in_active_domain:D",
}
KIND = {k: [tuple(x.split(":")) for x in v.split()] for k, v in KIND.items()}
SUBS = {"S": ["general_settings", "background_grid_settings", "trimmed_quadrature_rule_settings", "non_trimmed_quadrature_rule_settings"],
        "M": ["embedded_geometry_info", "quadrature_info", "background_grid_info", "elapsed_time_info"],
        "elapsed_time_info": ["volume_time_info", "conditions_time_info", "write_files_time_info"]}
LIST = {"S": "conditions_settings_list", "M": "conditions_infos_list"}
ELEM = {"S": "ConditionSettings", "M": "ConditionInfo"}


def near(a, b):  # ten significant digits
    return a == b or abs(a - b) <= 6e-10 * max(abs(a), abs(b))


def find(t, v, tol=False):
    for i, x in enumerate(POOL[t]):
        if t == "D":
            if type(v) in (float, int) and (near(v, x) if tol else v == x):
                return i + 1
        elif t == "P":
            if len(v) == 3 and all(near(a, b) if tol else a == b for a, b in zip(v, x)):
                return i + 1
        elif t == "V":
            if list(v) == x and all(type(a) is int for a in v):
                return i + 1
        elif type(v) is type(x) and v == x:
            return i + 1
    return -9


class World:
    def __init__(self):
        self.h = {"S": Q.Dictionary.Create("Settings"), "M": Q.Dictionary.Create("ModelInfo")}

    def at(self, path):
        if "#" in path:
            r, i = path.split("#")
            return self.h[r].GetObject().GetList(LIST[r])[int(i) - 1]
        parts = path.split("/")
        d = self.h[parts[0]].GetObject()
        for k in parts[1:]:
            d = d[k]
        return d

    def nodes(self, roots=("M", "S")):
        for r in roots:
            for k in SUBS[r]:
                yield r + "/" + k, k
                for q in SUBS.get(k, []):
                    yield r + "/" + k + "/" + q, q
            for i in range(len(self.h[r].GetObject().GetList(LIST[r]))):
                yield "%s#%d" % (r, i + 1), LIST[r]

    def show(self):
        out = set()
        for path, kind in self.nodes():
            d = self.at(path)
            for k, t in KIND[kind]:
                if d.IsSet(k):
                    try:
                        out.add((path, k, find(t, getattr(d, GET[t])(k), True)))
                    except Exception:
                        out.add((path, k, -8))
        return out


def no_dups(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key")
        d[k] = v
    return d


def doc(w, r, j, bad):
    """The JSON form of root r as [path, key, value or 0]; structure that is not expected -> bad."""
    out = []

    def leaf(path, kind, d, extra=()):
        if set(d) != {k for k, _ in KIND[kind]} | set(extra):
            bad.append("keys of " + path)
        for k, t in KIND[kind]:
            v = d.get(k)
            if v == "Not Set.":
                out.append([path, k, 0])
            elif t == "M" or t == "G":
                out.append([path, k, LIT[t].index(v) + 1 if v in LIT[t] else -9])
            elif t in "VP" and not isinstance(v, list):
                out.append([path, k, -9])
            elif t == "I" and type(v) is not int:
                out.append([path, k, -9])
            else:
                out.append([path, k, find(t, v, True)])
    if set(j) != set(SUBS[r]) | {LIST[r]}:
        bad.append("keys")
    for k in SUBS[r]:
        sub = SUBS.get(k, [])
        leaf(r + "/" + k, k, j[k], sub)
        for q in sub:
            leaf(r + "/" + k + "/" + q, q, j[k][q])
    for i, d in enumerate(j[LIST[r]]):
        leaf("%s#%d" % (r, i + 1), LIST[r], d)
    return out


def json_at(j, path):
    if "#" in path:
        r, i = path.split("#")
        return j[LIST[r]][int(i) - 1]
    for k in path.split("/")[1:]:
        j = j[k]
    return j


def dict_op(w, op, tmp, r):
    what, p, k = op["op"], op["n"], op["k"]
    if what == "append":
        w.at(p).GetList(LIST[p]).append(Q.Dictionary.Create(ELEM[p]))
        return [0]
    if what in ("json", "poke"):
        root = p[0]
        JsonIO.write_settings(w.h[root].GetObject(), tmp)
        with open(tmp, encoding="utf-8") as f:
            text = f.read()
        bad = []
        try:
            j = json.loads(text, object_pairs_hook=no_dups)
            if what == "json":
                r["doc"] = doc(w, root, j, bad)
        except Exception as e:
            return [-2]
        if bad:
            return [-3]
        if what == "poke":
            d = json_at(j, p)
            if op["t"] == "X":
                d.pop(k, None)
            else:
                d[k] = LIT[op["t"]][op["i"] - 1]
            with open(tmp, "w") as f:
                json.dump(j, f)
        if root == "S":
            w.h[root] = JsonIO.read_settings(tmp)
        return [0]
    d = w.at(p)
    if what == "set":
        d.SetValue(k, POOL[op["t"]][op["i"] - 1])
        return [0]
    if what == "get":
        return [1, find(op["t"], getattr(d, GET[op["t"]])(k), True)]
    if what == "isset":
        return [1, 1 if d.IsSet(k) else 0]
    if what == "sub":
        d[k]
        return [0]
    if what == "len":
        return [1, len(d.GetList(k))]
    raise SystemExit(3)


@handler("pydict")
def pydict(s, tmpdir):
    w = World()
    tmp = os.path.join(tmpdir, "settings.json")
    before = w.show()
    o = {"init": sorted(map(list, before)), "r": [], "unknown": 0}
    for op in s["ops"]:
        r = {"doc": []}
        try:
            r["a"] = dict_op(w, op, tmp, r)
        except Exception:
            r["a"] = [-1]
        after = w.show()
        r["add"] = sorted(map(list, after - before))
        r["del"] = sorted(map(list, before - after))
        before = after
        o["r"].append(r)
    for n in ("settings", "", "Setting", "MainSettings"):
        try:
            Q.Dictionary.Create(n)
            o["unknown"] += 1
        except Exception:
            pass
    return o


# ------------------------------------------------------------------ spline volume
def grid_json(s, tmpdir, extra=None):
    j = {"general_settings": {"write_output_to_file": False, "echo_level": 0, **(extra or {})},
         "background_grid_settings": {"grid_type": s["grid"], "lower_bound_xyz": s["X0"], "upper_bound_xyz": s["X1"],
                                      "lower_bound_uvw": s["U0"], "upper_bound_uvw": s["U1"],
                                      "polynomial_order": s["p"], "number_of_elements": s["n"]}}
    f = os.path.join(tmpdir, "grid.json")
    with open(f, "w") as fo:
        json.dump(j, fo)
    return f


class Units:
    """Integers for coordinates: x = a + (b - a) * k / m; far counts values that are not close to one."""
    def __init__(self):
        self.far = 0

    def __call__(self, x, a, b, m):
        v = (float(x) - a) / (b - a) * m
        if not abs(v) < 1e8 or abs(v - round(v)) > 1e-5:
            self.far += 1
            return 99999999
        return round(v)


TETRA = [[(0, 0, 0), (0, 1, 0), (1, 0, 0)], [(0, 0, 0), (1, 0, 0), (0, 0, 1)], [(0, 0, 0), (0, 0, 1), (0, 1, 0)], [(1, 0, 0), (0, 1, 0), (0, 0, 1)]]


def write_stl(path, tris):
    with open(path, "w") as f:
        f.write("solid s\n")
        for t in tris:
            f.write("facet normal 0 0 0\nouter loop\n" + "".join("vertex %.17g %.17g %.17g\n" % tuple(v) for v in t) + "endloop\nendfacet\n")
        f.write("endsolid s\n")


@handler("spline")
def spline(s, tmpdir):
    import numpy as np
    import scipy.interpolate as si
    from QuESoPythonModule.PyQuESo import PyQuESo
    from QuESoPythonModule.scripts.b_spline_volume import BSplineVolume
    X0, X1, U0, U1, n, p = (s[k] for k in ("X0", "X1", "U0", "U1", "n", "p"))
    extra = {}
    if s["run"]:
        stl = os.path.join(tmpdir, "t.stl")
        write_stl(stl, [[[X0[d] + (0.2 + 0.5 * v[d]) * (X1[d] - X0[d]) for d in range(3)] for v in t] for t in TETRA])
        extra = {"input_filename": stl}
    q = PyQuESo(grid_json(s, tmpdir, extra))
    if s["run"]:
        q.Run()
    kind = s["knots"]
    bad = 0
    for k in ("open", "", "Open_Knot_Vector", "non_open", "uniform", None):
        try:
            q.GetBSplineVolume(k)
            bad += 1
        except Exception:
            pass
    v = q.GetBSplineVolume(kind) if s["via"] == 0 else BSplineVolume(q.GetSettings(), kind)
    for k in (-1, 3, 4, 100, None):
        try:
            v.GetSpline(k)
            bad += 1
        except Exception:
            pass
    R = Units()
    o = {"accepted": bad, "order": list(v.PolynomialOrder()),
         "num": [v.NumberControlPointsInU(), v.NumberControlPointsInV(), v.NumberControlPointsInW()]}
    o["t"] = [[R(x, U0[d], U1[d], n[d]) for x in k] for d, k in enumerate((v.KnotsU(), v.KnotsV(), v.KnotsW()))]
    o["gt"] = [[R(x, U0[d], U1[d], n[d]) for x in v.GetSpline(d).t] for d in range(3)]
    o["sc"] = [[R(x, X0[d], X1[d], n[d] * p[d]) for x in v.GetSpline(d).c] for d in range(3)]
    o["sk"] = [int(v.GetSpline(d).k) for d in range(3)]
    cps = v.ControlPoints()
    o["len"] = len(cps)
    o["pts"] = [[k] + [R(cps[k][d], X0[d], X1[d], n[d] * p[d]) for d in range(3)] for k in sorted({x % len(cps) for x in s["pick"]})]
    m = v.ControlPointsMatrix()
    o["shape"] = list(m.shape)
    o["mat"] = []
    for x in s["pick"]:
        i, j, k = x % m.shape[0], (x // 7) % m.shape[1], (x // 53) % m.shape[2]
        o["mat"].append([i, j, k] + [R(m[i, j, k, d], X0[d], X1[d], n[d] * p[d]) for d in range(3)])
    # the curves and the volume, at multiples of a quarter of a cell
    o["curve"] = []
    for d in range(3):
        for j in range(4 * n[d] + 1):
            u = U0[d] + (U1[d] - U0[d]) * j / (4 * n[d])
            if j in (0, 4 * n[d]):  # the bounds themselves: the knots there may be off by a rounding error
                u += (1 if j == 0 else -1) * 1e-9 * (U1[d] - U0[d])
            o["curve"].append([d, j, R(v.GetSpline(d)(u), X0[d], X1[d], 4 * n[d])])
    basis = [si.BSpline(np.array(k), np.eye(m.shape[d]), p[d], extrapolate=False) for d, k in enumerate((v.KnotsU(), v.KnotsV(), v.KnotsW()))]
    o["vol"] = []
    for x in s["pick"]:
        jj = [1 + (x // (1, 11, 71)[d]) % (4 * n[d] - 1) for d in range(3)]
        b = [basis[d](U0[d] + (U1[d] - U0[d]) * jj[d] / (4 * n[d])) for d in range(3)]
        e = np.einsum("i,j,k,ijkd->d", b[0], b[1], b[2], m)
        o["vol"].append(jj + [R(e[d], X0[d], X1[d], 4 * n[d]) for d in range(3)])
    o["far"] = R.far
    return o


# ------------------------------------------------------------------ models seen from both sides (P01)
import gc, zlib
from QuESoPythonModule.PyQuESo import PyQuESo


def num(v):
    return "%.17g" % v


def nums(v):
    return "".join(num(x) + " " for x in v)


def csum(t):
    return zlib.crc32(t.encode()) & 0x1FFFFFFF


def show_value(d, k, t):
    v = getattr(d, GET[t])(k)
    if t == "D":
        return num(v)
    if t == "P":
        return nums(v)
    if t == "V":
        return "".join("%d " % x for x in v)
    if t == "B":
        return {True: "true", False: "false"}.get(v, "?") if type(v) is bool else "?"
    if t == "I":
        return "%d" % v if type(v) is int else "?"
    if t == "T":
        return v
    return {**dict(zip(M, MN)), **dict(zip(G, GN))}[v]


def group(out, path, kind, d):
    for k, t in KIND[kind]:
        out.append([path, k, "-" if not d.IsSet(k) else "+" if "time" in kind else show_value(d, k, t)])


def dict_view(d, root):
    out = []
    for k in SUBS[root]:
        group(out, root + "/" + k, k, d[k])
        for q in SUBS.get(k, []):
            group(out, root + "/" + k + "/" + q, q, d[k][q])
    for i, c in enumerate(d.GetList(LIST[root])):
        group(out, "%s#%d" % (root, i + 1), LIST[root], c)
    return out


def tri_text(t):
    r = nums(t.p1) + nums(t.p2) + nums(t.p3) + nums(t.normal) + num(t.Area()) + " " + num(t.AspectRatio()) + " " + nums(t.Center())
    for k in range(4):
        for q in t.GetIPsGlobal(k):
            r += nums((q.x, q.y, q.z)) + num(q.weight) + " " + nums(q.normal)
    return r


def mesh_view(m):
    t = "".join(nums(v) for v in m.Vertices()) + "".join(tri_text(x) for x in m.Triangles())
    return [m.NumOfTriangles(), m.NumOfVertices(), csum(t)]


def point_text(q):
    return nums((q.x, q.y, q.z)) + num(q.weight) + " "


def element_view(e):
    t = nums(e.LowerBoundXYZ()) + nums(e.UpperBoundXYZ()) + nums(e.LowerBoundUVW()) + nums(e.UpperBoundUVW())
    pts = e.GetIntegrationPoints()
    t += "".join(point_text(q) for q in pts)
    return [e.ID(), int(e.IsTrimmed()), len(pts), csum(t)]


def model_view(m, all_points):
    o = {"el": [element_view(e) for e in m.GetElements()], "conds": []}
    pts = all_points() if all_points else None
    o["all"] = [len(pts), csum("".join(point_text(q) for q in pts))] if all_points else []
    for c in m.GetConditions():
        s = []
        group(s, "", "conditions_settings_list", c.GetSettings())
        o["conds"].append({"n": c.NumberOfSegments(), "set": s, "segs": sorted(mesh_view(x.GetTriangleMesh()) for x in c.GetSegments())})
    o["set"] = dict_view(m.GetSettings(), "S")
    o["info"] = dict_view(m.GetModelInfo(), "M")
    return o


def parse_value(t, v):
    if t == "D":
        return float(v)
    if t == "I":
        return int(v)
    if t == "B":
        return v == "true"
    if t == "P":
        return [float(x) for x in v.split()]
    if t == "V":
        return [int(x) for x in v.split()]
    return v


def settings_json(use):
    """The settings shown by the other side as the content of a settings file."""
    j = {}
    for path, k, v in use:
        if v == "-":
            continue
        if "#" in path:
            lst = j.setdefault(LIST["S"], [])
            i = int(path.split("#")[1])
            while len(lst) < i:
                lst.append({})
            d, kind = lst[i - 1], LIST["S"]
        else:
            kind = path[2:]
            d = j.setdefault(kind, {})
        d[k] = parse_value(dict(KIND[kind])[k], v)
    return j


def settings_holder(use):
    """The settings shown by the other side, set one by one."""
    h = Q.Dictionary.Create("Settings")
    o = h.GetObject()
    lst = o.GetList(LIST["S"])
    for path, k, v in use:
        if v == "-":
            continue
        if "#" in path:
            kind, i = LIST["S"], int(path.split("#")[1])
            while len(lst) < i:
                lst.append(Q.Dictionary.Create("ConditionSettings"))
            d = lst[i - 1]
        else:
            kind = path[2:]
            d = o[kind]
        t = dict(KIND[kind])[k]
        d.SetValue(k, POOL[t][LIT[t].index(v)] if t in "MG" else parse_value(t, v))
    return h


def prepare(s, sub, tmpdir):
    """Files of the meshes and the settings: as shown by C++, and as a settings file."""
    import verifview
    d = os.path.abspath(os.path.join(tmpdir, sub))
    os.makedirs(d, exist_ok=True)
    use = json.loads(verifview.prepare(json.dumps({**s, "dir": d})))["use"]
    with open(os.path.join(d, "settings.json"), "w") as f:
        json.dump(settings_json(use), f)
    return use, os.path.join(d, "settings.json")


def probe(n, get, same):
    """Answers of an indexed access for indices in and beyond the range: [index, item found or -1: IndexError, -2: other exception]."""
    out = []
    for i in list(range(-n - 2, n + 3)) + [10 ** 6, 2 ** 40, -2 ** 40] if n <= 12 else [0, 1, n - 1, n, n + 1, n + 10 ** 6, -1, -n, -n - 1, 2 ** 40]:
        try:
            x = get(i)
        except IndexError:
            out.append([max(-10 ** 9, min(10 ** 9, i)), -1])
            continue
        except Exception:
            out.append([max(-10 ** 9, min(10 ** 9, i)), -2])
            continue
        j = i if 0 <= i < n else n + i
        out.append([max(-10 ** 9, min(10 ** 9, i)), j if 0 <= j < n and same(x, j) else -9])
    return out


def probes(o, name, seq, fp):
    items = [fp(x) for x in seq]
    n = len(seq)
    o.append({"what": name, "n": n, "iter": len(items), "r": probe(n, lambda i: seq[i], lambda x, j: fp(x) == items[j])})
    bad = 0
    for k in ("a", None, 1.5, [0], object()):
        try:
            seq[k]
            bad += 1
        except Exception:
            pass
    o[-1]["bad"] = bad


@handler("pyboth")
def pyboth(s, tmpdir):
    import verifview
    use, path = prepare(s, "m", tmpdir)
    if s["how"] == "json":
        q = PyQuESo(path)
        o = {"c0": json.loads(verifview.settings(q.GetSettings())), "p0": dict_view(q.GetSettings(), "S"), "use": use}
        q.Run()
        o["p"] = model_view(q, q.GetIntegrationPoints)
        m = q._embedded_model
    else:
        h = settings_holder(use)
        o = {"c0": json.loads(verifview.settings(h.GetObject())), "p0": dict_view(h.GetObject(), "S"), "use": use}
        q = m = Q.EmbeddedModel(h)
        q.CreateAllFromSettings()
        o["p"] = model_view(q, None)
    o["c"] = json.loads(verifview.view(m))
    r = Q.TriangleMesh()
    Q.IO.ReadMeshFromSTL(r, dict((k, v) for p, k, v in use if p == "S/general_settings")["input_filename"])
    o["p"]["mesh"] = [mesh_view(r), num(Q.MeshUtil.Volume(r)), num(Q.MeshUtil.Area(r))]
    o["c"]["mesh"] = json.loads(verifview.mesh(r))
    o["idx"] = []
    els = q.GetElements()
    probes(o["idx"], "elements", els, lambda e: e.ID())
    if els:
        e = els[s["pick"] % len(els)]
        probes(o["idx"], "points", e.GetIntegrationPoints(), point_text)
        if len(e.GetIntegrationPoints()):
            probes(o["idx"], "point", e.GetIntegrationPoints()[0], num)
    conds = q.GetConditions()
    probes(o["idx"], "conditions", conds, lambda x: x.NumberOfSegments())
    if len(conds):
        g = conds[s["pick"] % len(conds)].GetSegments()
        probes(o["idx"], "segments", g, lambda x: mesh_view(x.GetTriangleMesh()))
        if len(g) and g[0].GetTriangleMesh().NumOfTriangles():
            t = next(g[0].GetTriangleMesh().Triangles())
            probes(o["idx"], "boundary-points", t.GetIPsGlobal(s["pick"] % 4), lambda x: point_text(x) + nums(x.normal))
            probes(o["idx"], "boundary-point", t.GetIPsGlobal(0)[0], num)
    probes(o["idx"], "settings", q.GetSettings().GetList(LIST["S"]), lambda x: x.GetInt("condition_id"))
    probes(o["idx"], "infos", q.GetModelInfo().GetList(LIST["M"]), lambda x: x.GetInt("condition_id"))
    return o


# ------------------------------------------------------------------ lifetimes (PyLife.tla)
def life_file(c, tmpdir):
    f = os.path.join(tmpdir, "life%d.json" % c)
    if not os.path.exists(f):
        stl = os.path.join(tmpdir, "life%d.stl" % c)
        write_stl(stl, [[[0.1 * c + (1.7 - 0.1 * c) * x for x in v] for v in t] for t in TETRA])
        conds = [{"condition_id": 10 * c + i, "condition_type": "type %d" % i, "input_filename": stl, "value": [1.0 * i, 2.0, 3.0], "penalty_factor": 1e5 + c} for i in (1, 2)]
        j = {"general_settings": {"write_output_to_file": False, "echo_level": 0, "input_filename": stl, "output_directory_name": "o%d" % c},
             "background_grid_settings": {"grid_type": "b_spline_grid", "lower_bound_xyz": [0.0, 0.0, 0.0], "upper_bound_xyz": [2.0, 2.0, 2.0],
                                          "lower_bound_uvw": [0.0, 0.0, 0.0], "upper_bound_uvw": [1.0 * c, 1.0, 3.0],
                                          "polynomial_order": [1, 1, 1], "number_of_elements": [2, 2, 1 + c]},
             "trimmed_quadrature_rule_settings": {"min_element_volume_ratio": 0.0},
             "conditions_settings_list": conds}
        with open(f, "w") as fo:
            json.dump(j, fo)
    return f


def sections(d):
    root = "S" if len(str(d.IsSet)) and has_key(d, "general_settings") else "M"
    return root, SUBS[root]


def has_key(d, k):
    try:
        d[k]
        return True
    except Exception:
        return False


def life_get(x, parent, kind, i):
    if kind == "O" or kind == "k":
        return x.GetObject()
    if kind == "S":
        return x.GetSettings()
    if kind == "I":
        return x.GetModelInfo()
    if kind == "D":
        return x[sections(x)[1][i]]
    if kind == "L":
        return x.GetList(LIST[sections(x)[0]])
    if kind == "E":
        return x.GetElements()
    if kind == "C":
        return x.GetConditions()
    if kind in ("li", "pi", "gi"):
        return iter(x)
    if parent in ("li", "pi", "gi", "T", "V"):
        return next(x)
    if kind in ("d", "e", "p", "c", "g", "q"):
        return x[i]
    if kind == "P":
        return x.GetIntegrationPoints()
    if kind == "f":
        return x.GetSettings()
    if kind == "G":
        return x.GetSegments()
    if kind == "m":
        return x.GetTriangleMesh()
    if kind == "T":
        return x.Triangles()
    if kind == "V":
        return x.Vertices()
    if kind == "b":
        return x.GetIPsGlobal(2)
    raise SystemExit(3)


def entry_text(d):
    for kind in (LIST["S"], LIST["M"]):
        try:
            out = []
            group(out, "", kind, d)
            return str(out)
        except Exception:
            pass
    return "?"


def dict_text(d):
    root, subs = sections(d)
    out = []
    for k in subs:
        group(out, k, k, d[k])
    return str(out)


def any_text(d):  # a section: the keys tell which one it is
    for kind in KIND:
        out = []
        try:
            group(out, "", kind, d)
            return kind + str(out)
        except Exception:
            pass
    return "?"


LIFE = {"O": dict_text, "S": dict_text, "I": dict_text, "D": any_text, "L": lambda x: entry_text(x[0]) + entry_text(x[1]),
        "d": entry_text, "k": entry_text, "f": entry_text,
        "E": lambda x: str([e.ID() for e in x]), "e": lambda x: str(element_view(x)), "P": lambda x: "".join(point_text(q) for q in x),
        "p": point_text, "C": lambda x: str([c.NumberOfSegments() for c in x]), "c": lambda x: "%d" % x.NumberOfSegments() + entry_text(x.GetSettings()),
        "G": lambda x: str([mesh_view(g.GetTriangleMesh()) for g in x]), "g": lambda x: str(mesh_view(x.GetTriangleMesh())),
        "m": lambda x: str(mesh_view(x)), "t": tri_text, "v": nums, "b": lambda x: "".join(point_text(q) + nums(q.normal) for q in x),
        "q": lambda x: point_text(x) + nums(x.normal)}


def life_fp(x, kind):
    return csum(kind + LIFE[kind](x))


def life_paths(ops):
    """Paths of the objects that are used, by a dry run of the program."""
    slot, rel, n, used = {}, set(), 0, set()
    for op in ops:
        w, d, s = op["op"], op["d"], op["s"]
        if w in ("model", "holder", "entry"):
            n += 1
            slot[d] = "r%d%s" % (n, w[0].upper() if w != "entry" else "K")
        elif w == "drop":
            slot.pop(d, None)
        elif w == "make":
            if slot[s] not in rel:
                rel.add(slot[s])
                slot[d] = slot[s][:-1] + "M"
        elif w == "append":
            rel.add(slot[d])
        elif w == "get":
            if slot[s] not in rel:
                slot[d] = slot[s] + "/" + op["k"] + (str(op["i"]) if op["k"] in ("D", "d", "e", "p", "c", "g", "q") else "")
        elif w == "use":
            used.add(slot[s])
    return used


def life_walk(x, path):
    kind = path.split("/")[0][-1]
    keep = [x]
    for part in path.split("/")[1:]:
        k = part.rstrip("0123456789")
        x = life_get(x, kind, k, int(part[len(k):] or 0))
        keep.append(x)
        kind = k
    return life_fp(x, kind)


@handler("pylife")
def pylife(s, tmpdir):
    used = life_paths(s["ops"])
    ref, slot, rel, n, ans = [], {}, set(), 0, []

    def reference(root, x):
        for p in sorted(used):
            if p.split("/")[0] == root:
                ref.append([p, life_walk(x, p)])
    for op in s["ops"]:
        w, d, k = op["op"], op["d"], op["s"]
        if w in ("model", "holder", "entry"):
            n += 1
            if w == "model" and op["c"] == 1:
                x = PyQuESo(life_file(1, tmpdir))
                x.Run()
            elif w == "model":
                x = Q.EmbeddedModel(JsonIO.read_settings(life_file(2, tmpdir)))
                x.CreateAllFromSettings()
            elif w == "holder":
                x = JsonIO.read_settings(life_file(op["c"], tmpdir))
            else:
                x = Q.Dictionary.Create("ConditionSettings")
                x.GetObject().SetValue("condition_id", 70 + op["c"])
                x.GetObject().SetValue("condition_type", "appended")
                x.GetObject().SetValue("input_filename", os.path.join(tmpdir, "life%d.stl" % op["c"]))
                life_file(op["c"], tmpdir)
            name = "r%d%s" % (n, {"model": "M", "holder": "H", "entry": "K"}[w])
            reference(name, x)
            slot[d] = [x, name]
            ans.append(0)
        elif w == "drop":
            slot.pop(d, None)
            ans.append(0)
        elif w == "use":
            ans.append(life_fp(slot[k][0], slot[k][1].split("/")[-1].rstrip("0123456789") if "/" in slot[k][1] else slot[k][1][-1]))
        else:
            try:
                if w == "make":
                    x = Q.EmbeddedModel(slot[k][0])
                    x.CreateAllFromSettings()
                    name = slot[k][1][:-1] + "M"
                    reference(name, x)
                elif w == "append":
                    slot[k][0].append(slot[d][0])
                    ans.append(0)
                    continue
                else:
                    p = slot[k][1]
                    kind = p.split("/")[-1].rstrip("0123456789") if "/" in p else p[-1]
                    x = life_get(slot[k][0], kind, op["k"], op["i"])
                    name = p + "/" + op["k"] + (str(op["i"]) if op["k"] in ("D", "d", "e", "p", "c", "g", "q") else "")
                slot[d] = [x, name]
                ans.append(0)
            except RuntimeError:
                ans.append(-1)
        x = None
        if s["gc"]:
            gc.collect()
    return {"r": ans, "ref": ref}


# ------------------------------------------------------------------ meshes and lists built from Python (PyMesh.tla)
class Store:
    """The list of PyMesh.tla in one of the list types; item k has values that follow from k."""
    def __init__(self, kind):
        self.kind = kind
        self.l = {"ip": Q.IntegrationPointVector, "bip": Q.BoundaryIPVector, "d1": Q.IntegrationPoint1DVector}[kind]()

    def make(self, k):
        if self.kind == "ip":
            return Q.IntegrationPoint(k, k + 0.25, -0.5 * k, 1.0 / (k + 2))
        if self.kind == "bip":
            return Q.BoundaryIntegrationPoint(x=k, y=k + 0.25, z=-0.5 * k, weight=-1.0 / (k + 2), normal=[k, 0.125, -3e100])
        return [k * 0.1, 7.0]

    def number(self, x):
        if self.kind == "d1":
            v = list(x)
            return next((k for k in range(1, 4) if v == [k * 0.1, 7.0]), -9)
        k = int(x.x) if x.x == int(x.x) else -9
        want = [k, k + 0.25, -0.5 * k]
        ok = list(x) == want and [x[0], x[1], x[2]] == want and [x.x, x.y, x.z] == want and len(x) == 3 and [x[-3], x[-2], x[-1]] == want
        ok = ok and (x.weight == 1.0 / (k + 2) if self.kind == "ip" else x.weight == -1.0 / (k + 2) and list(x.normal) == [k, 0.125, -3e100])
        return k if ok else -9


def whole(x):
    """The integer a computed value stands for."""
    return round(x) if abs(x) < 1e8 and abs(x - round(x)) < 1e-6 * max(1, abs(x)) else -77777777


@handler("pymesh")
def pymesh(s, tmpdir):
    f, st, m, vi, ti, held, out = float(s["scale"]), Store(s["list"]), Q.TriangleMesh(), None, None, None, []

    def show(t):
        return [whole(x / f) for p in (t.p1, t.p2, t.p3) for x in p] + [whole(3 * x / f) for x in t.Center()] + [whole(4 * (t.Area() / f / f) ** 2)]

    def do(w, a):
        nonlocal m, vi, ti, held
        l = st.l
        if w == "addv":
            return [m.AddVertex([f * x for x in a] if s["seq"] else tuple(f * x for x in a))]
        if w == "addt":
            return [0] if m.AddTriangle(a if s["seq"] else tuple(a)) is None else [-9]
        if w == "num":
            return [m.NumOfVertices(), m.NumOfTriangles()]
        if w == "vol":
            return [whole(6 * Q.MeshUtil.Volume(m) / f ** 3)]
        if w == "vert":
            vi = m.Vertices() if s["seq"] else iter(m.Vertices())
            return [0]
        if w == "tri":
            ti = m.Triangles() if s["seq"] else iter(m.Triangles())
            return [0]
        if w == "vnext":
            return [whole(x / f) for x in next(vi)]
        if w == "tnext":
            held = next(ti)
            return show(held)
        if w == "held":
            return show(held)
        if w == "ips":
            q = held.GetIPsGlobal(a[0])
            return [len(q)] if abs(sum(x.weight for x in q) - held.Area()) < 1e-9 * held.Area() else [-9]
        if w == "drop":
            m, vi, ti = Q.TriangleMesh(), None, None
            return [0]
        if w == "append":
            l.append(st.make(a[0]))
        elif w == "len":
            return [len(l)]
        elif w == "all":
            return [st.number(x) for x in l]
        elif w == "get":
            return [st.number(l[a[0]])]
        elif w == "set":
            l[a[0]] = st.make(a[1])
        elif w == "pop":
            return [st.number(l.pop(a[0]))]
        elif w == "del":
            del l[a[0]]
        elif w == "insert":
            l.insert(a[0], st.make(a[1]))
        elif w == "clear":
            l.clear()
        elif w == "extend":
            l.extend([st.make(x) for x in a])
        return [0]
    for op in s["ops"]:
        try:
            out.append(do(op["op"], op["a"]))
        except StopIteration:
            out.append([-3])
        except Exception:
            out.append([-1])
        if s["gc"]:
            gc.collect()
    return {"r": out}


# ------------------------------------------------------------------ calls with values of right and wrong types (PySig.tla)
@handler("pycall")
def pycall(s, tmpdir):
    path = life_file(1, tmpdir)
    h = JsonIO.read_settings(path)
    model = Q.EmbeddedModel(JsonIO.read_settings(path))  # a model has checked its settings
    mesh = Q.TriangleMesh()
    for v in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]):
        mesh.AddVertex(v)
    mesh.AddTriangle([0, 1, 2])
    info = Q.Dictionary.Create("ModelInfo")
    value = {"int": 2, "neg": -3, "float": 0.5, "text": None, "none": None, "p3": [0.5, 1.5, 2.5], "v3": [0, 2, 1], "two": [1, 2], "four": [1, 2, 0, 1],
             "mixed": ["a", 0, 1], "dict": {"a": 1}, "mesh": mesh, "settings": model.GetSettings(), "holder": h, "info": info.GetObject(),
             "point": Q.IntegrationPoint(1, 2, 3, 4), "bpoint": Q.BoundaryIntegrationPoint(1, 2, 3, 4, [0, 0, 1]),
             "section": h.GetObject()["general_settings"], "obj": object(), "big": 2 ** 70}
    pts = Q.IntegrationPointVector([Q.IntegrationPoint(0, 0, 0, 0)] * 3)
    bpts = Q.BoundaryIPVector()
    tri = next(mesh.Triangles())

    def put(i, x):
        pts[i] = x
    fun = {"IntegrationPoint": Q.IntegrationPoint, "BoundaryIntegrationPoint": Q.BoundaryIntegrationPoint, "AddVertex": mesh.AddVertex,
           "AddTriangle": mesh.AddTriangle, "Volume": Q.MeshUtil.Volume, "Area": Q.MeshUtil.Area, "AppendPoint": pts.append,
           "AppendBoundaryPoint": bpts.append, "SetPoint": put, "ReadMesh": Q.IO.ReadMeshFromSTL, "Grid": Q.BackgroundGrid,
           "ReadSettings": JsonIO.read_settings, "Create": Q.Dictionary.Create, "Reserve": lambda *a: Q.TriangleMesh().Reserve(*a),
           "Ips": tri.GetIPsGlobal, "WriteJson": JsonIO.write_settings}
    text = {"ReadMesh": os.path.join(tmpdir, "life1.stl"), "ReadSettings": path, "Create": "ConditionInfo", "WriteJson": os.path.join(tmpdir, "w.json")}
    out = []
    for c in s["calls"]:
        value["text"] = text.get(c["c"], "x")
        try:
            fun[c["c"]](*[value[a] for a in c["a"]])
            out.append(1)
        except Exception:
            out.append(-1)
    return {"r": out}


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    with open(sys.argv[1]) as fi, open(sys.argv[2], "w") as fo, tempfile.TemporaryDirectory(dir=".") as td:
        for line in fi:
            s = json.loads(line)
            h = HANDLERS.get(s["ev"])
            if h is None:
                sys.stderr.write("unknown event")
                sys.exit(3)
            try:
                o = h(s, td)
                o.setdefault("st", "ok")
            except Exception as e:
                import traceback
                o = {"st": "err", "what": (str(e) + traceback.format_exc())[-1500:]}
            fo.write(json.dumps(o) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
