// Which settings a model is created from (D03).
#include "common.hpp"
#include "model.hpp"
using namespace queso;
using namespace hv;
namespace {
using Dict = Dictionary<key::MainValuesTypeTag>;
using Empty = Dict::EmptyKeySetType;

const IntegrationMethod kMethods[6] = { IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2,
    IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 };

template<class TInfo>
Unique<Dict> Raw() { return MakeUnique<Dict>(Dict::KeySetInfosTypeTag<TInfo, Empty, Empty>{}); }

// Settings with exactly the listed keys missing; bare: nothing comes from the factory's defaults.
Unique<Dict> Make(const json& s, const Vector3i& p)
{
    auto d = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    if (s["bare"].get<int>()) {
        d->SetSubDictionary(MainSettings::general_settings, Raw<key::detail::GeneralSettingsMainValuesTypeTagKeySetInfo>());
        d->SetSubDictionary(MainSettings::trimmed_quadrature_rule_settings, Raw<key::detail::TrimmedQuadratureRuleSettingsMainValuesTypeTagKeySetInfo>());
        d->SetSubDictionary(MainSettings::non_trimmed_quadrature_rule_settings, Raw<key::detail::NonTrimmedQuadratureRuleSettingsMainValuesTypeTagKeySetInfo>());
    }
    std::set<std::string> given;
    for (const auto& k : s["given"]) given.insert(k.get<std::string>());
    auto& g = (*d)[MainSettings::general_settings];
    auto& b = (*d)[MainSettings::background_grid_settings];
    auto& t = (*d)[MainSettings::trimmed_quadrature_rule_settings];
    auto& n = (*d)[MainSettings::non_trimmed_quadrature_rule_settings];
    auto has = [&](const char* k) { return given.count(k) > 0; };
    if (has("input_filename")) g.SetValue(GeneralSettings::input_filename, std::string("body.stl"));
    if (has("output_directory_name")) g.SetValue(GeneralSettings::output_directory_name, std::string("elsewhere"));
    if (has("echo_level")) g.SetValue(GeneralSettings::echo_level, 0u);
    if (has("write_output_to_file")) g.SetValue(GeneralSettings::write_output_to_file, false);
    if (has("grid_type")) b.SetValue(BackgroundGridSettings::grid_type, s["g"].get<int>() == 1 ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
    if (has("lower_bound_xyz")) b.SetValue(BackgroundGridSettings::lower_bound_xyz, PointType{ 0, 0, 0 });
    if (has("upper_bound_xyz")) b.SetValue(BackgroundGridSettings::upper_bound_xyz, PointType{ 2, 1, 1 });
    if (has("lower_bound_uvw")) b.SetValue(BackgroundGridSettings::lower_bound_uvw, PointType{ 0, 0, 0 });
    if (has("upper_bound_uvw")) b.SetValue(BackgroundGridSettings::upper_bound_uvw, PointType{ 1, 1, 1 });
    if (has("polynomial_order")) b.SetValue(BackgroundGridSettings::polynomial_order, p);
    if (has("number_of_elements")) b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{ 2, 1, 1 });
    if (has("moment_fitting_residual")) t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, 2e-10);
    if (has("min_element_volume_ratio")) t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, 2e-3);
    if (has("min_num_boundary_triangles")) t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, 200u);
    if (has("neglect_elements_if_stl_is_flawed")) t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, false);
    if (has("activate_fictitious_domain_with_alpha")) t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, 0.5);
    if (has("integration_method")) n.SetValue(NonTrimmedQuadratureRuleSettings::integration_method, kMethods[s["m"].get<int>() - 1]);
    for (const auto& c : s["conds"]) {
        auto& list = d->GetList(MainSettings::conditions_settings_list);
        if (c["null"].get<int>()) { list.push_back(nullptr); continue; }
        auto q = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
        for (const auto& k : c["given"]) {
            const std::string key = k.get<std::string>();
            if (key == "condition_id") q->SetValue(ConditionSettings::condition_id, 3u);
            if (key == "input_filename") q->SetValue(ConditionSettings::input_filename, std::string("c.stl"));
            if (key == "condition_type") q->SetValue(ConditionSettings::condition_type, std::string("Any"));
            if (key == "modulus") q->SetValue(ConditionSettings::modulus, 2.0);
            if (key == "direction") q->SetValue(ConditionSettings::direction, PointType{ 1, 0, 0 });
            if (key == "value") q->SetValue(ConditionSettings::value, PointType{ 0, 0, 1 });
            if (key == "penalty_factor") q->SetValue(ConditionSettings::penalty_factor, 1e5);
        }
        list.push_back(std::move(q));
    }
    return d;
}

json SettingsTable(const json& s)
{
    json o;
    o["acc"] = json::array();
    o["seen"] = json::array();
    o["vol"] = json::array();
    // the body: one whole cell of two
    TriangleMesh mesh = MeshUtilities::MakeMeshBox({ 0, 0, 0 }, { 1, 1, 1 });
    for (const auto& pj : s["plist"]) {
        const Vector3i p = I3(pj);
        auto d = Make(s, p);
        try {
            auto model = EmbeddedModel::Create(std::move(d));
            o["acc"].push_back(1);
            const auto& st = model.GetSettings();
            const auto& g = st[MainSettings::general_settings];
            const auto& t = st[MainSettings::trimmed_quadrature_rule_settings];
            json v = json::array();
            v.push_back(g.GetRequiredValue<std::string>(GeneralSettings::output_directory_name) == "queso_output" ? 1 : 2);
            v.push_back(g.GetRequiredValue<IndexType>(GeneralSettings::echo_level) == 1u ? 1 : 2);
            v.push_back(g.GetRequiredValue<bool>(GeneralSettings::write_output_to_file) ? 1 : 2);
            auto which = [](double x, double def, double oth) { return x == def ? 1 : x == oth ? 2 : 9; };
            v.push_back(which(t.GetRequiredValue<double>(TrimmedQuadratureRuleSettings::moment_fitting_residual), 1e-10, 2e-10));
            v.push_back(which(t.GetRequiredValue<double>(TrimmedQuadratureRuleSettings::min_element_volume_ratio), 1e-3, 2e-3));
            v.push_back(which(static_cast<double>(t.GetRequiredValue<IndexType>(TrimmedQuadratureRuleSettings::min_num_boundary_triangles)), 100, 200));
            v.push_back(t.GetRequiredValue<bool>(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed) ? 1 : 2);
            const auto a = t.TryGetValue<double>(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha);
            v.push_back(!a ? 1 : (a->get() == 0.5 ? 2 : 9));
            v.push_back(1 + static_cast<int>(st[MainSettings::non_trimmed_quadrature_rule_settings].GetRequiredValue<IntegrationMethod>(NonTrimmedQuadratureRuleSettings::integration_method)));
            o["seen"].push_back(v);
            if (s["volume"].get<int>()) {
                int r = 0;
                try {
                    model.CreateVolume(mesh.View());
                    const auto views = model.GetElementViews();
                    r = views.size() == 1 && std::abs((*views.begin()).template GetIntegrationPoints<CoordinateSpace::global>()[0].Weight()) > 0 ? 1 : 2;
                } catch (const std::exception&) { r = 3; }
                o["vol"].push_back(r);
            }
        } catch (const std::exception&) {
            o["acc"].push_back(0);
        }
    }
    return o;
}
const bool reg = [] { Registry()["settings"] = SettingsTable; return true; }();
} // namespace
