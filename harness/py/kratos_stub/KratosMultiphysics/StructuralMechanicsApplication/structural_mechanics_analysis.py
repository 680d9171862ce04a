"""The stages of an analysis that come before the solution, in the order of the original."""
import KratosMultiphysics as KM


class _NurbsModeler:
    def __init__(self, model, parameters):
        self.model, self.parameters = model, parameters

    def SetupGeometryModel(self):
        p = self.parameters
        vec = lambda k: list(p[k].GetVector())
        name = p["model_part_name"].GetString()
        part = self.model.GetModelPart(name) if self.model.HasModelPart(name) else self.model.CreateModelPart(name)
        volume = KM.NurbsVolume((vec("lower_point_xyz"), vec("upper_point_xyz")), (vec("lower_point_uvw"), vec("upper_point_uvw")))
        volume.order, volume.spans = vec("polynomial_order"), vec("number_of_knot_spans")
        part.AddGeometry(p["geometry_name"].GetString(), volume)

    def PrepareGeometryModel(self):
        pass

    def SetupModelPart(self):
        pass


class _OtherModeler(_NurbsModeler):
    """Fills the model part with entities of its own, which are replaced later."""
    def SetupGeometryModel(self):
        pass

    def SetupModelPart(self):
        if getattr(self, "done", False):
            return
        self.done = True
        part = self.model.GetModelPart("NurbsMesh")
        for k in range(3):
            part.CreateNewNode(k + 1, k, 0, 0)
        part.CreateNewElement("Other", 1, [1, 2, 3], part.GetProperties()[1])
        part.CreateNewElement("Other", 7, [1, 2, 3], part.GetProperties()[1])
        part.CreateNewCondition("Other", 1, [1], part.GetProperties()[1])


class StructuralMechanicsAnalysis:
    def __init__(self, model, parameters):
        self.model, self.project_parameters = model, parameters
        self.echo_level = 0
        self.modelers = None

    def _GetSimulationName(self):
        return "Analysis"

    def _GetListOfModelers(self):
        if self.modelers is None:
            self.modelers = [(_NurbsModeler if m["modeler_name"].GetString() == "NurbsGeometryModeler" else _OtherModeler)(self.model, m["Parameters"])
                             for m in self.project_parameters["modelers"].values()]
        return self.modelers

    def _ModelersSetupGeometryModel(self):
        for m in self._GetListOfModelers():
            m.SetupGeometryModel()

    def _ModelersPrepareGeometryModel(self):
        for m in self._GetListOfModelers():
            m.PrepareGeometryModel()

    def _ModelersSetupModelPart(self):
        for m in self._GetListOfModelers():
            m.SetupModelPart()

    def ModifyInitialGeometry(self):
        pass

    def Initialize(self):
        self._ModelersSetupGeometryModel()
        self._ModelersPrepareGeometryModel()
        self._ModelersSetupModelPart()
        self.ModifyInitialGeometry()

    def Run(self):
        self.Initialize()
