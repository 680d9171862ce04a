"""A stand-in for KratosMultiphysics (which is not installed) that records what it is given. It keeps the rules of the
original that matter to a caller: ids of entities are unique, entities refer to nodes that exist, variables are set
per entity, flagged entities are removed. Variables are any name in capitals."""
import json as _json
import math as _math
import sys as _sys


class Variable(str):
    pass


def _names(module):
    def get(name):
        if name.isupper():
            return Variable(name)
        raise AttributeError(module + " has no " + name)
    return get


__getattr__ = _names(__name__)


class _Data:
    def __init__(self):
        self.data = {}
        self.flags = set()

    def SetValue(self, variable, value):
        if not isinstance(variable, Variable):
            raise TypeError("not a variable")
        v = list(value) if hasattr(value, "__len__") else value
        for i, x in enumerate("XYZ"):
            if variable.endswith("_" + x):
                self.data.setdefault(str(variable[:-2]), [0.0, 0.0, 0.0])[i] = float(v)
                return
        self.data[str(variable)] = v

    def GetValue(self, variable):
        return self.data[str(variable)]

    def Has(self, variable):
        return str(variable) in self.data

    def __setitem__(self, variable, value):
        self.SetValue(variable, value)

    def __getitem__(self, variable):
        return self.GetValue(variable)

    def Set(self, flag, value=True):
        (self.flags.add if value else self.flags.discard)(str(flag))

    def Is(self, flag):
        return str(flag) in self.flags


class Vector(list):
    def __init__(self, a=0, value=0.0):
        super().__init__([value] * a if isinstance(a, int) else [float(x) for x in a])

    def Size(self):
        return len(self)


Array3 = Vector


class Node(_Data):
    def __init__(self, id, x, y=None, z=None):
        super().__init__()
        if y is None:
            x, y, z = x
        self.Id = int(id)
        self.X0, self.Y0, self.Z0 = self.X, self.Y, self.Z = float(x), float(y), float(z)
        self.fixed = set()
        self.step = {}

    def Fix(self, variable):
        if not isinstance(variable, Variable):
            raise TypeError("not a variable")
        self.fixed.add(str(variable))

    def IsFixed(self, variable):
        return str(variable) in self.fixed

    def SetSolutionStepValue(self, variable, *value):
        d = _Data()
        d.data = self.step
        d.SetValue(variable, value[-1])

    def GetSolutionStepValue(self, variable, step=0):
        return self.step[str(variable)]


class Triangle3D3(list):
    def __init__(self, *nodes):
        super().__init__(nodes[0] if len(nodes) == 1 else nodes)
        if len(self) != 3 or not all(isinstance(n, Node) for n in self):
            raise TypeError("three nodes are needed")


class GeometriesVector(list):
    def append(self, x):
        super().append(x)

    def size(self):
        return len(self)


class QuadraturePointGeometry:
    """What a quadrature point geometry was made from: points (local coordinates and weight) or a triangle."""
    def __init__(self, points=None, triangle=None):
        self.points, self.triangle = points, triangle

    def __len__(self):
        return 8  # nodes of the volume that have an influence here

    def __iter__(self):
        raise RuntimeError("the nodes of the volume are not known here")


class NurbsVolume:
    """A box: local coordinates are mapped linearly to the physical space."""
    def __init__(self, bounds_xyz, bounds_uvw):
        self.xyz, self.uvw = bounds_xyz, bounds_uvw

    def map(self, p):
        return [self.xyz[0][i] + (p[i] - self.uvw[0][i]) * (self.xyz[1][i] - self.xyz[0][i]) / (self.uvw[1][i] - self.uvw[0][i]) for i in range(3)]

    def CreateQuadraturePointGeometries(self, geometries, derivatives, points=None):
        if not isinstance(geometries, GeometriesVector):
            raise TypeError("a GeometriesVector is needed")
        pts = [[float(x) for x in p] for p in points]
        if any(len(p) != 4 for p in pts):
            raise TypeError("points have four components")
        geometries[:] = [QuadraturePointGeometry(points=pts)]


class SurfaceInNurbsVolumeGeometry:
    def __init__(self, volume, triangle):
        self.volume, self.triangle = volume, triangle

    def Area(self):
        p = [self.volume.map((n.X, n.Y, n.Z)) for n in self.triangle]
        a, b = ([p[k][i] - p[0][i] for i in range(3)] for k in (1, 2))
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        return 0.5 * _math.sqrt(sum(x * x for x in c))

    def CreateQuadraturePointGeometries(self, geometries, derivatives):
        geometries[:] = [QuadraturePointGeometry(triangle=[[n.X, n.Y, n.Z] for n in self.triangle])]


class Properties(_Data):
    def __init__(self, x=0):
        super().__init__()
        self.Id = x if isinstance(x, int) else x.Id
        if not isinstance(x, int):
            self.data = dict(x.data)


class _AllProperties(dict):
    def __missing__(self, k):
        self[k] = Properties(k)
        return self[k]


class Entity(_Data):
    def __init__(self, name, id, geometry, properties):
        super().__init__()
        self.name, self.Id, self.geometry, self.Properties = name, int(id), geometry, properties

    def GetGeometry(self):
        return self.geometry

    def GetNodes(self):
        return self.geometry


class ModelPart:
    def __init__(self, name):
        self.Name = name
        self.nodes, self.elements, self.conditions, self.geometries = {}, {}, {}, {}
        self.properties = _AllProperties()
        self.variables = set()
        self.ProcessInfo = _Data()

    def AddNodalSolutionStepVariable(self, v):
        self.variables.add(str(v))

    def AddGeometry(self, name, g):
        self.geometries[name] = g

    def GetGeometry(self, name):
        return self.geometries[name]

    def GetProperties(self, id=None):
        return self.properties if id is None else self.properties[id]

    Properties = property(lambda s: s.properties)
    Nodes = property(lambda s: [s.nodes[k] for k in sorted(s.nodes)])
    Elements = property(lambda s: [s.elements[k] for k in sorted(s.elements)])
    Conditions = property(lambda s: [s.conditions[k] for k in sorted(s.conditions)])

    def NumberOfNodes(self, *a):
        return len(self.nodes)

    def NumberOfElements(self, *a):
        return len(self.elements)

    def NumberOfConditions(self, *a):
        return len(self.conditions)

    def GetNode(self, id):
        return self.nodes[id]

    def GetElement(self, id):
        return self.elements[id]

    def GetCondition(self, id):
        return self.conditions[id]

    def CreateNewNode(self, id, x, y, z):
        if id in self.nodes or id < 1:
            raise RuntimeError("node %d exists already" % id)
        self.nodes[id] = Node(id, x, y, z)
        return self.nodes[id]

    def _new(self, where, name, id, geometry, properties):
        if id in where or id < 1:
            raise RuntimeError("an entity with id %d exists already" % id)
        if not isinstance(properties, Properties):
            raise TypeError("properties are needed")
        if isinstance(geometry, (list, tuple)) and not isinstance(geometry, (Triangle3D3, GeometriesVector)):
            geometry = [self.nodes[k] for k in geometry]
        where[id] = Entity(name, id, geometry, properties)
        return where[id]

    def CreateNewElement(self, name, id, geometry, properties):
        return self._new(self.elements, name, id, geometry, properties)

    def CreateNewCondition(self, name, id, geometry, properties):
        return self._new(self.conditions, name, id, geometry, properties)

    def RemoveElements(self, flag):
        for k in [k for k, e in self.elements.items() if e.Is(flag)]:
            del self.elements[k]

    def RemoveConditions(self, flag):
        for k in [k for k, e in self.conditions.items() if e.Is(flag)]:
            del self.conditions[k]

    RemoveElementsFromAllLevels = RemoveElements
    RemoveConditionsFromAllLevels = RemoveConditions


class Model:
    def __init__(self):
        self.parts = {}

    def CreateModelPart(self, name, *a):
        if name in self.parts:
            raise RuntimeError("the model part exists already")
        self.parts[name] = ModelPart(name)
        return self.parts[name]

    def GetModelPart(self, name):
        return self.parts[name]

    def HasModelPart(self, name):
        return name in self.parts

    __getitem__ = GetModelPart


class Parameters:
    def __init__(self, x="{}", owner=None, key=None):
        self.v = _json.loads(x) if isinstance(x, str) and owner is None else x
        self.owner, self.key = owner, key

    def __getitem__(self, k):
        return Parameters(self.v[k], self, k)

    def Has(self, k):
        return k in self.v

    def AddEmptyValue(self, k):
        self.v.setdefault(k, None)
        return self[k]

    def _set(self, x):
        self.v = x
        self.owner.v[self.key] = x

    def SetVector(self, x):
        self._set([float(a) for a in x])

    SetDouble = SetInt = SetBool = SetString = _set

    def AddVector(self, k, x):
        self.AddEmptyValue(k).SetVector(x)

    def GetString(self):
        return str(self.v)

    def GetVector(self):
        return Vector(self.v)

    def GetInt(self):
        return int(self.v)

    GetDouble = lambda s: float(s.v)
    GetBool = lambda s: bool(s.v)

    def size(self):
        return len(self.v)

    def keys(self):
        return list(self.v)

    def values(self):
        return [Parameters(x, self, k) for k, x in (self.v.items() if isinstance(self.v, dict) else enumerate(self.v))]

    __iter__ = lambda s: iter(s.values())


class VariableUtils:
    dofs = []

    def AddDof(self, a, b, model_part):
        VariableUtils.dofs.append([str(a), str(b), model_part.Name])


class Logger:
    @staticmethod
    def PrintInfo(*a):
        pass

    PrintWarning = PrintInfo


class ProcessInfo(_Data):
    pass
