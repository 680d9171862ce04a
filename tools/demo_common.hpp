// Small helpers of the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <vector>
#include <omp.h>
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "queso/embedded_model.h"
#include "queso/embedding/brep_operator.h"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/io/io_utilities.h"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"
using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
#define REQUIRE(c) do { if (!(c)) { std::printf("not satisfied: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)

inline TriangleMesh Box(PointType a, PointType b) { return MeshUtilities::MakeMeshBox(a, b); }

struct Grid {
    PointType lo{ 0, 0, 0 }, hi{ 1, 1, 1 };
    Vector3i n{ 1, 1, 1 }, p{ 2, 2, 2 };
    IntegrationMethod method = IntegrationMethod::gauss;
    GridType type = GridType::b_spline_grid;
    PointType ulo{ 0, 0, 0 }, uhi{ 1, 1, 1 };
    double residual = 1e-10;
    double alpha = -1;
    IndexType min_tri = 100;
    bool write = false;
    std::string dir = "queso_output", file = "dummy.stl";
};

inline Unique<Dict> MakeSettings(const Grid& g)
{
    auto s = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    auto& gs = (*s)[MainSettings::general_settings];
    gs.SetValue(GeneralSettings::input_filename, g.file);
    gs.SetValue(GeneralSettings::echo_level, IndexType(0));
    gs.SetValue(GeneralSettings::write_output_to_file, g.write);
    gs.SetValue(GeneralSettings::output_directory_name, g.dir);
    auto& b = (*s)[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, g.type);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, g.lo);
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, g.hi);
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, g.ulo);
    b.SetValue(BackgroundGridSettings::upper_bound_uvw, g.uhi);
    b.SetValue(BackgroundGridSettings::polynomial_order, g.p);
    b.SetValue(BackgroundGridSettings::number_of_elements, g.n);
    auto& t = (*s)[MainSettings::trimmed_quadrature_rule_settings];
    t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, g.residual);
    t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, g.min_tri);
    if (g.alpha > 0) t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, g.alpha);
    (*s)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, g.method);
    s->CheckRequired();
    return s;
}

inline Unique<Dict> MakeCondition(IndexType id)
{
    auto s = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
    s->SetValue(ConditionSettings::condition_id, id);
    s->SetValue(ConditionSettings::input_filename, std::string("dummy.stl"));
    s->CheckRequired();
    return s;
}
