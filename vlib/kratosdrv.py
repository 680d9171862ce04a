"""Scenario runner on the interface to the finite element code, which is replaced by a stand-in that records what it is
given (harness/py/kratos_stub): argv = input file, output file."""
import json, math, os, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness", "py", "kratos_stub"))
sys.path.insert(0, HERE)
import pydrv
from pydrv import Q, handler, csum, point_text, write_stl, Units
import KratosMultiphysics as KM
from QuESoPythonModule.kratos_interface.model_part_utilities import ModelPartUtilities as MPU
from QuESoPythonModule.kratos_interface.bounding_box_bcs import DirichletCondition, NeumannCondition

warnings.simplefilter("ignore")
FAR = 77777777
AXES = {"DISPLACEMENT_X": 1, "DISPLACEMENT_Y": 2, "DISPLACEMENT_Z": 3}


def near(x):
    """The integer a computed value stands for."""
    return round(x) if abs(x) < 1e8 and abs(x - round(x)) < 2e-6 * max(1, abs(x)) ** 0.5 else FAR


def make_mesh(tris, at):
    """Vertices are shared within the mesh."""
    m, ids = Q.TriangleMesh(), {}
    for t in tris:
        k = []
        for p in t:
            p = tuple(p)
            if p not in ids:
                ids[p] = m.AddVertex(at(p))
            k.append(ids[p])
        m.AddTriangle(k)
    return m


class Element:
    """An element as the interface sees it."""
    def __init__(self, k, points, weight):
        self.k, self.trimmed = k, any(p[3] != 1 for p in points)
        self.points = Q.IntegrationPointVector([Q.IntegrationPoint(p[0], p[1], p[2], weight(p[3])) for p in points])

    def GetIntegrationPoints(self):
        return self.points

    def ID(self):
        return self.k

    def IsTrimmed(self):
        return self.trimmed


class Segment:
    def __init__(self, mesh):
        self.mesh = mesh

    def GetTriangleMesh(self):
        return self.mesh


class Condition:
    def __init__(self, settings, segments):
        self.holder, self.segments = settings, segments

    def is_weak_condition(self):
        return True

    def GetSettings(self):
        return self.holder.GetObject()

    def GetSegments(self):
        return self.segments

    def NumberOfSegments(self):
        return len(self.segments)

    def __iter__(self):
        return iter(self.segments)


WEIGHTS = {-2: -0.5, -1: -1e-300, 0: 0.0, 1: 1.0, 2: 0.125, 3: 1e-20, 4: 3e5}


class World:
    def __init__(self, s):
        self.s = s
        self.h, self.lo, n = [float(x) for x in s["h"]], s["lower"], s["span"]
        self.area = self.h[s["b"][0]] * self.h[s["b"][1]]       # of a unit square
        self.uvw = (s["U0"], s["U1"])
        self.xyz = ([float(x) for x in self.lo], [self.lo[i] + self.h[i] * n[i] for i in range(3)])
        self.part = KM.ModelPart("NurbsMesh")
        self.part.AddGeometry("NurbsVolume", KM.NurbsVolume(self.xyz, self.uvw))
        for k, x, y, z in s["nodes"]:
            self.part.CreateNewNode(k, *self.at((x, y, z)))
        self.meshes = [make_mesh(t, self.at) for t in s["meshes"]]

    def at(self, p):
        return tuple(self.lo[i] + self.h[i] * p[i] for i in range(3))

    def unit(self, u):
        return [(u[i] - self.uvw[0][i]) / (self.uvw[1][i] - self.uvw[0][i]) * self.s["span"][i] for i in range(3)]

    def condition(self, c):
        t = c["t"]
        if t == "dirichlet":
            return DirichletCondition(self.at(c["lo"]), self.at(c["hi"]), tuple(x != 0 for x in c["d"]))
        if t == "neumann":
            return NeumannCondition(self.at(c["lo"]), self.at(c["hi"]), tuple(float(x) for x in c["d"]))
        h = Q.Dictionary.Create("ConditionSettings")
        d = h.GetObject()
        d.SetValue("condition_id", 1)
        d.SetValue("condition_type", t)
        d.SetValue("modulus", float(c["k"]))
        d.SetValue("direction", [float(x) for x in c["d"]])
        d.SetValue("value", [float(x) for x in c["d"]])
        d.SetValue("penalty_factor", 1e3 * c["pen"])
        return Condition(h, [Segment(self.meshes[k - 1]) for k in c["seg"]])

    def do(self, op):
        w, p = op["op"], self.part
        if w == "elements":
            MPU.add_elements_to_model_part(p, [Element(i + 1, e, WEIGHTS.get) for i, e in enumerate(self.s["elems"][op["m"] - 1])])
        elif w == "conds":
            MPU.add_conditions_to_model_part(p, [self.condition(c) for c in op["c"]], self.xyz, self.uvw)
        elif w == "rme":
            MPU.remove_all_elements(p)
        elif w == "rmc":
            MPU.remove_all_conditions(p)
        else:
            raise SystemExit(3)

    def show(self):
        return show_part(self.part, self.unit, self.area)


def show_points(e, bad):
    inv = {v: k for k, v in WEIGHTS.items()}
    if not isinstance(e.geometry, KM.QuadraturePointGeometry) or e.geometry.points is None:
        bad.append("element")
        return []
    return [[near(q[0]), near(q[1]), near(q[2]), inv.get(q[3], FAR)] for q in e.geometry.points]


def show_part(part, unit, area):
    """The content of a model part in lattice units."""
    bad = []
    o = {"el": [], "fx": [], "pf": [], "sup": [], "ids": [int(sorted(d) == list(range(1, len(d) + 1))) for d in (part.elements, part.conditions)]}
    for e in part.Elements:
        if e.name != "SmallDisplacementElement3D8N":
            bad.append(e.name)
        o["el"].append(show_points(e, bad))
    for n in part.Nodes:
        for v in n.fixed:
            o["fx"].append([n.Id, AXES.get(v, 9)])
    force = {n.Id: [0.0] * 3 for n in part.Nodes}
    a, f, m, sm = 0.0, [0.0] * 3, [[0.0] * 3 for _ in "xyz"], [[0.0] * 3 for _ in "xyz"]
    for c in part.Conditions:
        own = c.data.get("POINT_LOAD", [0.0] * 3)
        if c.name == "PointLoadCondition3D1N":
            for n in c.geometry:
                for i in range(3):
                    force[n.Id][i] += own[i] + n.step.get("POINT_LOAD", [0.0] * 3)[i]
        elif c.name == "LoadCondition":
            pts = c.geometry.points
            w = sum(q[3] for q in pts) / area
            a += 2 * w
            for q in pts:
                x, share = unit(q), q[3] / area
                for i in range(3):
                    for j in range(3):
                        m[i][j] += 6 * own[i] / area * (share / w) * x[j]
                        sm[i][j] += 24 * share * x[i] * x[j]
            for i in range(3):
                f[i] += 2 * own[i] / area
        elif c.name in ("SupportPenaltyCondition", "SupportLagrangeCondition"):
            pen = near(c.Properties.data["PENALTY_FACTOR"] / 1e3) if c.name == "SupportPenaltyCondition" else 0
            o["sup"].append([c.name.replace("Support", "", 1).replace("Condition", "SupportCondition"), [near(x) for x in c.data["DISPLACEMENT"]], pen,
                             [[near(x) for x in unit(p)] for p in c.geometry.triangle]])
        else:
            bad.append(c.name)
    o["pf"] = [[k] + [near(x) for x in force[k]] for k in sorted(force)]
    o["ld"] = {"a": near(a), "f": [near(x) for x in f], "m": [[near(x) for x in r] for r in m], "s": [[near(x) for x in r] for r in sm]}
    o["bad"] = len(bad)
    return o


@handler("kprog")
def kprog(s, tmpdir):
    w, r = World(s), []
    for op in s["ops"]:
        try:
            w.do(op)
            a = 0
        except SystemExit:
            raise
        except Exception:
            a = -1
        r.append({"a": a, **w.show()})
    return {"r": r}


# ------------------------------------------------------------------ triangle meshes as model parts and back
def corners(m):
    return [[list(t.p1), list(t.p2), list(t.p3)] for t in m.Triangles()]


def straight(m):
    """Number of triangles whose normal does not have the direction its corners give."""
    bad = 0
    for t in m.Triangles():
        a, b = ([getattr(t, q)[i] - t.p1[i] for i in range(3)] for q in ("p2", "p3"))
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        n = math.sqrt(sum(x * x for x in c))
        bad += n > 0 and not sum(abs(c[i] / n - t.normal[i]) for i in range(3)) < 1e-6
    return bad


@handler("kmesh")
def kmesh(s, tmpdir):
    f = float(s["h"])
    whole = lambda ps: [[near(x / f) for x in p] for p in ps]
    part = KM.ModelPart("Embedded")
    o = {}
    if s["how"] == "there":     # a mesh as a model part, and back
        m = make_mesh(s["tris"], lambda p: [f * x for x in p]) if s["share"] else Q.TriangleMesh()
        if not s["share"]:
            for t in s["tris"]:
                m.AddTriangle([m.AddVertex([f * x for x in p]) for p in t])
        for p in s["loose"]:
            m.AddVertex([f * x for x in p])
        MPU.read_model_part_from_triangle_mesh(part, m)
        o["verts"] = whole(m.Vertices())
    else:                       # a model part with ids of its own
        for k, p in s["nodes"]:
            part.CreateNewNode(k, *[f * x for x in p])
        for k, ids in s["ents"]:
            (part.CreateNewElement if s["kind"] == "Elements" else part.CreateNewCondition)("Shell", k, ids, part.GetProperties()[1])
        o["verts"] = []
    o["nodes"] = whole([[n.X, n.Y, n.Z] for n in part.Nodes])
    ents = part.Elements if s["kind"] == "Elements" else part.Conditions
    o["ents"] = [whole([[n.X, n.Y, n.Z] for n in e.geometry]) for e in ents]
    o["ids"] = [int([e.Id for e in part.Nodes] == list(range(1, len(part.nodes) + 1))), int([e.Id for e in ents] == list(range(1, len(ents) + 1)))]
    m = Q.TriangleMesh()
    try:
        MPU.read_triangle_mesh_grom_model_part(m, part, *([] if s["kind"] == "Elements" and s["short"] else [s["kind"]]))
        o["a"] = 0
        o["back"], o["bverts"], o["normals"] = [whole(t) for t in corners(m)], whole(m.Vertices()), straight(m)
    except Exception:
        o["a"] = -1
    o["kinds"] = 0
    for k in ("Nodes", "elements", "", "Geometries", None):
        try:
            MPU.read_triangle_mesh_grom_model_part(Q.TriangleMesh(), part, k)
            o["kinds"] += 1
        except Exception:
            pass
    return o


# ------------------------------------------------------------------ a whole analysis
def part_content(part, unit, hu):
    """Elements by checksum; what supports and loads amount to."""
    bad, sup = [], {}
    o = {"el": [], "f": [0.0] * 3, "ids": [int(sorted(d) == list(range(1, len(d) + 1))) for d in (part.elements, part.conditions)]}
    for e in part.Elements:
        if e.name != "SmallDisplacementElement3D8N":
            bad.append(e.name)
        else:
            o["el"].append([len(e.geometry.points), csum("".join("%.17g " % x for p in e.geometry.points for x in p))])
    for c in part.Conditions:
        if c.name == "LoadCondition":
            for i in range(3):
                o["f"][i] += 200 * c.data["POINT_LOAD"][i] / hu ** 2
        elif c.name in ("SupportPenaltyCondition", "SupportLagrangeCondition"):
            p = [unit(q) for q in c.geometry.triangle]
            a, b = ([p[k][i] - p[0][i] for i in range(3)] for k in (1, 2))
            n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            pen = near(c.Properties.data["PENALTY_FACTOR"]) if c.name == "SupportPenaltyCondition" else 0
            g = sup.setdefault((c.name.replace("Support", "", 1).replace("Condition", "SupportCondition"), tuple(near(x) for x in c.data["DISPLACEMENT"]), pen), [0.0] * 6)
            for i in range(3):
                g[2 * i + (n[i] > 0)] += 100 * abs(n[i])
        else:
            bad.append(c.name)
    o["f"] = [round(x) for x in o["f"]]
    o["sup"] = [[k[0], list(k[1]), k[2], [round(x) for x in v]] for k, v in sorted(sup.items())]
    o["bad"] = len(bad)
    return o


@handler("krun")
def krun(s, tmpdir):
    from QuESoPythonModule.PyQuESo import PyQuESo
    _, path = pydrv.prepare(s, "k", tmpdir)
    q = PyQuESo(path)
    o = {"early": 1}
    try:
        q.GetAnalysis()
    except Exception:
        o["early"] = 0
    q.Run()
    g = q.GetSettings()["background_grid_settings"]
    lo, hi, ulo, uhi = (list(g.GetDoubleVector(k)) for k in ("lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw"))
    kratos = os.path.join(os.path.dirname(path), "kratos.json")
    mods = [{"modeler_name": "NurbsGeometryModeler", "Parameters": {"model_part_name": "NurbsMesh", "geometry_name": "NurbsVolume"}},
            {"modeler_name": "OtherModeler", "Parameters": {"lower_point_xyz": [1, 2, 3]}}]
    with open(kratos, "w") as f:
        json.dump({"modelers": mods if s["first"] else mods[::-1]}, f)
    n, U = s["n"], s["U"]
    unit = lambda u: [(u[i] - ulo[i]) / (uhi[i] - ulo[i]) * n[i] * U for i in range(3)]
    hu = (hi[0] - lo[0]) / (n[0] * U)
    runs = []
    for _ in range(2):
        KM.VariableUtils.dofs = []
        q.RunKratosAnalysis(kratos)
        model = q.GetAnalysis().model
        part = q.GetAnalysis().GetModelPart()
        r = part_content(part, unit, hu)
        v = part.GetGeometry("NurbsVolume")
        r["box"] = [int(list(a) == b) for a, b in zip(list(v.xyz) + list(v.uvw), (lo, hi, ulo, uhi))]
        r["order"], r["spans"] = [int(x) for x in v.order], [int(x) for x in v.spans]
        r["dofs"] = sorted(a for a, b, c in KM.VariableUtils.dofs if c == "NurbsMesh")
        r["vars"] = sorted(part.variables)
        emb = model.GetModelPart("EmbeddedModelPart")
        r["emb"] = csum(str(sorted([[n.X, n.Y, n.Z] for n in e.geometry] for e in emb.Elements)))
        runs.append(r)
    o["again"] = int(runs[0] == runs[1])
    o.update(runs[0])
    mesh = Q.TriangleMesh()
    Q.IO.ReadMeshFromSTL(mesh, q.GetSettings()["general_settings"].GetString("input_filename"))
    o["mesh"] = csum(str(sorted(corners(mesh))))
    o["model"] = []
    for e in q.GetElements():
        pts = [p for p in e.GetIntegrationPoints() if p.weight > 0]
        o["model"].append([len(pts), csum("".join(point_text(p) for p in pts))])
    return o


if __name__ == "__main__":
    pydrv.main()
