// The C++ side of the comparison with the Python interface (P01), loaded into the same interpreter: prepares the files
// and settings of a model, and shows what a model contains, through the C++ interface. Numbers are compared as the text with 17 digits; long texts by their checksum.
#include <filesystem>
#include <pybind11/pybind11.h>
#include "model.hpp"
#include "keys.hpp"
#include "queso/io/io_utilities.h"
using namespace queso;
using namespace hv;
namespace fs = std::filesystem;
namespace {
using Dict = Dictionary<key::MainValuesTypeTag>;

std::string N(double v)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", v);
    return b;
}
long long Sum(const std::string& t) // crc32, 30 bits
{
    static const auto table = [] {
        std::array<uint32_t, 256> a{};
        for (uint32_t i = 0; i < 256; ++i) {
            uint32_t c = i;
            for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            a[i] = c;
        }
        return a;
    }();
    uint32_t c = 0xFFFFFFFFu;
    for (unsigned char x : t) c = table[(c ^ x) & 255] ^ (c >> 8);
    return static_cast<long long>((c ^ 0xFFFFFFFFu) & 0x1FFFFFFFu);
}
struct Text {
    std::string t;
    Text& operator<<(double v) { t += N(v) + " "; return *this; }
    template<class V> Text& Vec(const V& v) { for (int a = 0; a < 3; ++a) *this << static_cast<double>(v[a]); return *this; }
};
std::string Show(double v) { return N(v); }
std::string Show(IndexType v) { return std::to_string(v); }
std::string Show(bool v) { return v ? "true" : "false"; }
std::string Show(const std::string& v) { return v; }
std::string Show(const PointType& v) { Text t; t.Vec(v); return t.t; }
std::string Show(const Vector3i& v) { return std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]) + " "; }
std::string Show(IntegrationMethod v)
{
    static const char* n[] = { "Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2" };
    const IntegrationMethod m[] = { IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2,
        IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 };
    for (int i = 0; i < 6; ++i) if (m[i] == v) return n[i];
    return "?";
}
std::string Show(GridType v) { return v == GridType::b_spline_grid ? "b_spline_grid" : v == GridType::hexahedral_fe_grid ? "hexahedral_fe_grid" : "?"; }

template<class T, int REQ, class K>
std::optional<T> Value(const Dict& d, const K& k)
{
    if constexpr (REQ == 1) return d.GetRequiredValue<T>(k);
    else return d.TryGetValue<T>(k)->get();
}
// values of the keys of one group: [path, key, value or "-"]; durations only as set or not
void Group(json& out, const std::string& path, const std::string& group, const Dict& d)
{
    const bool time = group.find("Time") != std::string::npos;
    d.CheckRequired();
#define X(G, K, T, REQ) \
    if (group == #G) out.push_back(json::array({ json(path), json(#K), json( !d.IsSet(G::K) ? std::string("-") : time ? std::string("+") : Show(*Value<T, REQ>(d, G::K))) }));
    QKEYS(X)
#undef X
}
json SettingsView(const Dict& d)
{
    json r = json::array();
    Group(r, "S/general_settings", "GeneralSettings", d[MainSettings::general_settings]);
    Group(r, "S/background_grid_settings", "BackgroundGridSettings", d[MainSettings::background_grid_settings]);
    Group(r, "S/trimmed_quadrature_rule_settings", "TrimmedQuadratureRuleSettings", d[MainSettings::trimmed_quadrature_rule_settings]);
    Group(r, "S/non_trimmed_quadrature_rule_settings", "NonTrimmedQuadratureRuleSettings", d[MainSettings::non_trimmed_quadrature_rule_settings]);
    int i = 0;
    for (const auto& c : d.GetList(MainSettings::conditions_settings_list)) Group(r, "S#" + std::to_string(++i), "ConditionSettings", *c);
    return r;
}
json InfoView(const Dict& d)
{
    json r = json::array();
    const auto& e = d[MainInfo::elapsed_time_info];
    Group(r, "M/embedded_geometry_info", "EmbeddedGeometryInfo", d[MainInfo::embedded_geometry_info]);
    Group(r, "M/quadrature_info", "QuadratureInfo", d[MainInfo::quadrature_info]);
    Group(r, "M/background_grid_info", "BackgroundGridInfo", d[MainInfo::background_grid_info]);
    Group(r, "M/elapsed_time_info", "ElapsedTimeInfo", e);
    Group(r, "M/elapsed_time_info/volume_time_info", "VolumeTimeInfo", e[ElapsedTimeInfo::volume_time_info]);
    Group(r, "M/elapsed_time_info/conditions_time_info", "ConditionsTimeInfo", e[ElapsedTimeInfo::conditions_time_info]);
    Group(r, "M/elapsed_time_info/write_files_time_info", "WriteFilesTimeInfo", e[ElapsedTimeInfo::write_files_time_info]);
    int i = 0;
    for (const auto& c : d.GetList(MainInfo::conditions_infos_list)) Group(r, "M#" + std::to_string(++i), "ConditionInfo", *c);
    return r;
}
// [triangles, vertices, checksum]
json MeshView(const TriangleMesh& m)
{
    Text t;
    for (IndexType i = 0; i < m.NumOfVertices(); ++i) t.Vec(m.Vertex(i));
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i) {
        const auto tri = m.Triangle<WithNormals>(i);
        t.Vec(tri.P1).Vec(tri.P2).Vec(tri.P3).Vec(tri.Normal);
        t << TriangleUtilities::Area(tri) << TriangleUtilities::AspectRatio(tri);
        t.Vec(TriangleUtilities::Center(tri));
        for (IndexType k = 0; k < 4; ++k)
            for (const auto& q : TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(tri, k)) {
                t.Vec(q) << q.Weight();
                t.Vec(q.Normal());
            }
    }
    return { m.NumOfTriangles(), m.NumOfVertices(), Sum(t.t) };
}
json View(const EmbeddedModel& m)
{
    json o;
    o["el"] = json::array();
    Text all;
    long long npoints = 0;
    for (const auto& e : m.GetElementViews()) {
        Text t;
        const auto g = e.GetCellBounds<CoordinateSpace::global>();
        const auto p = e.GetCellBounds<CoordinateSpace::parametric>();
        t.Vec(g.lower).Vec(g.upper).Vec(p.lower).Vec(p.upper);
        long long n = 0;
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::parametric>()) {
            t.Vec(q) << q.Weight();
            ++n;
            if (!e.IsTrimmed() || q.Weight() > 0) {
                all.Vec(q) << q.Weight();
                ++npoints;
            }
        }
        o["el"].push_back({ e.GetId(), e.IsTrimmed() ? 1 : 0, n, Sum(t.t) });
    }
    o["all"] = { npoints, Sum(all.t) };
    o["conds"] = json::array();
    for (const auto& c : m.GetConditions()) {
        json s = json::array();
        Group(s, "", "ConditionSettings", c.GetSettings());
        std::vector<json> segs;
        for (const auto& x : c.GetSegments()) segs.push_back(MeshView(x.GetTriangleMesh()));
        std::sort(segs.begin(), segs.end());
        o["conds"].push_back({ { "n", c.NumberOfSegments() }, { "set", s }, { "segs", segs } });
    }
    o["set"] = SettingsView(m.GetSettings());
    o["info"] = InfoView(m.GetModelInfo());
    return o;
}

void WriteMesh(const TriangleMesh& m, const std::string& f, bool ascii)
{
    IO::WriteMeshToSTL(m, f, ascii ? IO::EncodingType::ascii : IO::EncodingType::binary);
}

json PyModel(const json& s)
{
    const fs::path dir = s["dir"].get<std::string>();
    json t = s;
    t["file"] = (dir / "mesh.stl").string();
    Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    const ModelRun run(s, lat);
    WriteMesh(run.mesh, t["file"], s["ascii"].get<int>() == 1);
    auto p_settings = Settings(t, lat);
    if (s.contains("neglect"))
        (*p_settings)[MainSettings::trimmed_quadrature_rule_settings].SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, s["neglect"].get<bool>());
    size_t k = 0;
    for (const auto& c : s["conds"]) {
        const std::string f = (dir / ("cond" + std::to_string(k) + ".stl")).string();
        WriteMesh(run.cond_mesh[k++], f, s["ascii"].get<int>() == 2);
        auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
        p->SetValue(ConditionSettings::condition_id, c["id"].get<IndexType>());
        p->SetValue(ConditionSettings::input_filename, f);
        if (c.contains("type")) p->SetValue(ConditionSettings::condition_type, c["type"].get<std::string>());
        if (c.contains("modulus")) p->SetValue(ConditionSettings::modulus, c["modulus"].get<double>());
        if (c.contains("penalty")) p->SetValue(ConditionSettings::penalty_factor, c["penalty"].get<double>());
        if (c.contains("value")) { const auto v = D3(c["value"]); p->SetValue(ConditionSettings::value, PointType{ v[0], v[1], v[2] }); }
        if (c.contains("direction")) { const auto v = D3(c["direction"]); p->SetValue(ConditionSettings::direction, PointType{ v[0], v[1], v[2] }); }
        p_settings->GetList(MainSettings::conditions_settings_list).push_back(std::move(p));
    }
    p_settings->CheckRequired();
    json o;
    o["use"] = SettingsView(*p_settings);
    return o;
}
json MeshFacts(const TriangleMesh& m) { return { MeshView(m), N(MeshUtilities::VolumeOMP(m.View())), N(MeshUtilities::AreaOMP(m.View())) }; }
} // namespace

PYBIND11_MODULE(verifview, m)
{
    m.def("prepare", [](const std::string& s) { return PyModel(json::parse(s)).dump(); });
    m.def("view", [](const EmbeddedModel& r) { return View(r).dump(); });
    m.def("mesh", [](const TriangleMesh& r) { return MeshFacts(r).dump(); });
    m.def("settings", [](const Dict& r) { return SettingsView(r).dump(); });
}
