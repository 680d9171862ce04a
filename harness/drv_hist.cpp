// Histories of operations on an embedded model, compared with a model created from settings and files (S01).
#include "common.hpp"
#include "model.hpp"
#include "queso/io/io_utilities.h"
#include <filesystem>
#include <unistd.h>
namespace fs = std::filesystem;

using namespace queso;
using namespace hv;

namespace {

std::string Dump(const DictType& d, const fs::path& tmp)
{
    IO::WriteDictionaryToJSON(d, tmp.string());
    std::ifstream f(tmp);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

json Files(const fs::path& dir)
{
    std::vector<std::string> v;
    if (fs::exists(dir)) for (const auto& e : fs::recursive_directory_iterator(dir)) v.push_back(fs::relative(e.path(), dir).string());
    std::sort(v.begin(), v.end());
    return v;
}

template<class K>
double Req(const DictType& d, const K& key)
{
    d.CheckRequired();
    return d.GetRequiredValue<double>(key);
}

// What a model shows: elements, conditions, information, times.
json Show(const EmbeddedModel& model, const Lattice& lat, const Vector3i& n)
{
    json o;
    const double unit = lat.h[0] * lat.h[1] * lat.h[2] / (lat.U * lat.U * lat.U);
    std::vector<json> el;
    for (const auto& e : model.GetElementViews()) {
        double v = 0, m[3] = { 0, 0, 0 };
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) {
            v += q.Weight();
            for (int a = 0; a < 3; ++a) m[a] += q.Weight() * lat.L(a, q[a]);
        }
        el.push_back({ e.GetId(), e.IsTrimmed() ? 1 : 0, e.GetIntegrationPoints().size(), R(6 * v / unit, 1000), R(m[0] / unit, 100), R(m[1] / unit, 100), R(m[2] / unit, 100) });
    }
    std::sort(el.begin(), el.end(), [](const json& a, const json& b) { return a[0].get<int>() < b[0].get<int>(); });
    o["el"] = el;
    const auto& info = model.GetModelInfo();
    const auto& g = info[MainInfo::embedded_geometry_info];
    const auto& q = info[MainInfo::quadrature_info];
    const auto& b = info[MainInfo::background_grid_info];
    // unset information is shown as -1
    o["info"] = { Num<IndexType>(b, BackgroundGridInfo::num_active_elements, 1),
        Num<IndexType>(b, BackgroundGridInfo::num_trimmed_elements, 1),
        Num<IndexType>(b, BackgroundGridInfo::num_full_elements, 1),
        Num<IndexType>(b, BackgroundGridInfo::num_inactive_elements, 1),
        Num<IndexType>(q, QuadratureInfo::tot_num_points, 1),
        Num<double>(q, QuadratureInfo::represented_volume, 6000 / unit),
        Num<double>(q, QuadratureInfo::percentage_of_geometry_volume, 1000),
        Num<double>(q, QuadratureInfo::num_of_points_per_full_element, 1000),
        Num<double>(q, QuadratureInfo::num_of_points_per_trimmed_element, 1000),
        Num<double>(g, EmbeddedGeometryInfo::volume, 6000 / unit),
        Num<bool>(g, EmbeddedGeometryInfo::is_closed, 1) };
    o["conds"] = json::array();
    const auto& infos = info.GetList(MainInfo::conditions_infos_list);
    o["ninfos"] = infos.size();
    size_t i = 0;
    for (const auto& c : model.GetConditions()) {
        json r;
        c.GetSettings().CheckRequired();
        r["id"] = c.GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id);
        const DictType* p = i < infos.size() ? infos[i].get() : nullptr;
        if (p) p->CheckRequired();
        r["iid"] = p ? Num<IndexType>(*p, ConditionInfo::condition_id) : -1;
        r["own"] = p == &c.GetInfo() ? 1 : 0;
        double unit2 = std::pow(unit, 2.0 / 3.0);
        r["area"] = p ? Num<double>(*p, ConditionInfo::surf_area, 1000 / unit2) : -1;
        r["perc"] = p ? Num<double>(*p, ConditionInfo::perc_surf_area_in_active_domain, 1000) : -1;
        std::vector<json> segs;
        for (const auto& sg : c.GetSegments()) {
            double area;
            const json f = SegmentFacts(sg.GetTriangleMesh(), lat, n, area, false);
            json e = { f["c"], sg.IsInActiveElement() ? 1 : 0, sg.GetParentElement() ? sg.GetParentElement()->GetId() : 0, sg.GetTriangleMesh().NumOfTriangles() };
            for (const auto& x : f["a"]) e.push_back(x);
            segs.push_back(e);
        }
        std::sort(segs.begin(), segs.end());
        r["segs"] = segs;
        r["nseg"] = c.NumberOfSegments();
        o["conds"].push_back(r);
        ++i;
    }
    // times: each kind present or not, the total is the sum
    const auto& t = info[MainInfo::elapsed_time_info];
    const auto& tv = t[ElapsedTimeInfo::volume_time_info];
    const double total = Req(t, ElapsedTimeInfo::total), v = Req(tv, VolumeTimeInfo::total),
                 cd = Req(t[ElapsedTimeInfo::conditions_time_info], ConditionsTimeInfo::total),
                 w = Req(t[ElapsedTimeInfo::write_files_time_info], WriteFilesTimeInfo::total);
    const double parts = Req(tv, VolumeTimeInfo::classification_of_elements) + Req(tv, VolumeTimeInfo::construction_of_ggq_rules);
    o["time"] = { v > 0 ? 1 : 0, cd > 0 ? 1 : 0, w > 0 ? 1 : 0, std::abs(total - v - cd - w) <= 1e-9 + 1e-9 * total ? 1 : 0, parts <= v + 1e-9 ? 1 : 0 };
    o["tt"] = { v, cd, w };
    return o;
}

json HistoryIn(const json& s, const fs::path& dir)
{
    const Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    const int threads = s.value("threads", 1);
    ModelRun run(s, lat);
    IO::WriteMeshToSTL(run.mesh, (dir / "v.stl").string(), s.value("ascii", 0) ? IO::EncodingType::ascii : IO::EncodingType::binary);
    for (size_t c = 0; c < run.cond_mesh.size(); ++c)
        IO::WriteMeshToSTL(run.cond_mesh[c], (dir / ("c" + std::to_string(c) + ".stl")).string(), IO::EncodingType::binary);
    const auto make = [&](const std::string& out) {
        json t = s;
        t["file"] = (dir / "v.stl").string();
        t["outdir"] = (dir / out).string();
        auto p = Settings(t, lat);
        for (size_t c = 0; c < run.cond_mesh.size(); ++c) {
            auto q = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
            q->SetValue(ConditionSettings::condition_id, s["conds"][c]["id"].get<IndexType>());
            q->SetValue(ConditionSettings::input_filename, (dir / ("c" + std::to_string(c) + ".stl")).string());
            q->CheckRequired();
            p->GetList(MainSettings::conditions_settings_list).push_back(std::move(q));
        }
        if (s.value("write", false)) fs::create_directories(dir / out);
        return p;
    };
    omp_set_num_threads(threads);
    json o;
    // the reference
    {
        EmbeddedModel m = EmbeddedModel::Create(make("ref"));
        m.CreateAllFromSettings();
        o["ref"] = Show(m, lat, n);
        o["ref"].erase("tt");
        o["reffiles"] = Files(dir / "ref");
    }
    auto p_settings = make("out");
    const std::string before = Dump(*p_settings, dir / "d.json");
    std::vector<std::string> cbefore;
    for (const auto& c : run.cond_settings) cbefore.push_back(Dump(*c, dir / "d.json"));
    auto model = std::make_unique<EmbeddedModel>(EmbeddedModel::Create(std::move(p_settings)));
    struct Held { EmbeddedModel::ElementViewType view; const void* pts; std::vector<double> data; };
    std::vector<Held> held;
    const auto data = [](const EmbeddedModel::ElementViewType& v) {
        std::vector<double> d{ static_cast<double>(v.GetId()), v.IsTrimmed() ? 1.0 : 0.0 };
        for (const auto& q : v.GetIntegrationPoints()) for (double x : { q[0], q[1], q[2], q.Weight() }) d.push_back(x);
        for (int a = 0; a < 3; ++a) { d.push_back(v.GetCellBounds<CoordinateSpace::global>().lower[a]); d.push_back(v.GetCellBounds<CoordinateSpace::parametric>().upper[a]); }
        return d;
    };
    json out = json::array();
    double last[3] = { 0, 0, 0 };
    for (const auto& op : s["ops"]) {
        const std::string k = op["op"].get<std::string>();
        json r;
        try {
            if (k == "volume") {
                model->CreateVolume(run.mesh.View());
                for (const auto& e : model->GetElementViews()) held.push_back({ e, &e.GetIntegrationPoints(), data(e) });
            } else if (k == "cond") {
                const size_t c = op["k"].get<size_t>() - 1;
                model->CreateCondition(run.cond_mesh.at(c).View(), *run.cond_settings.at(c));
            } else if (k == "badcond") { // settings without the required id
                const auto q = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
                model->CreateCondition(run.cond_mesh.at(0).View(), *q);
            } else if (k == "all") {
                model->CreateAllFromSettings();
                held.clear();
                for (const auto& e : model->GetElementViews()) held.push_back({ e, &e.GetIntegrationPoints(), data(e) });
            } else if (k == "write") {
                model->WriteModelToFile();
            } else if (k == "move") {
                model = std::make_unique<EmbeddedModel>(std::move(*model));
            } else if (k == "files") {
                r["files"] = Files(dir / "out");
            } else if (k == "snap") {
                r = Show(*model, lat, n);
                int h = 0;
                for (const auto& x : held) if (data(x.view) == x.data && &x.view.GetIntegrationPoints() == x.pts) ++h;
                r["held"] = { held.size(), h };
                // accumulated times never decrease
                int mono = 1;
                for (int a = 0; a < 3; ++a) { const double t = r["tt"][a].get<double>(); if (t < last[a]) mono = 0; last[a] = t; }
                r["mono"] = mono;
                r.erase("tt");
            } else throw std::logic_error("bad op " + k);
            r["st"] = 1;
        } catch (const Exception& e) {
            r = { { "st", -1 } };
        }
        out.push_back(r);
    }
    o["r"] = out;
    int same = run.Unchanged() ? 1 : 0;
    if (Dump(model->GetSettings(), dir / "d.json") != before) same = 0;
    for (size_t c = 0; c < cbefore.size(); ++c) if (Dump(*run.cond_settings[c], dir / "d.json") != cbefore[c]) same = 0;
    o["unchanged"] = same;
    omp_set_num_threads(1);
    return o;
}

json History(const json& s)
{
    const fs::path dir = fs::absolute("hist_" + std::to_string(::getpid()) + "_" + std::to_string(s["id"].get<int>()));
    fs::create_directories(dir);
    json o;
    try {
        o = HistoryIn(s, dir);
    } catch (...) {
        fs::remove_all(dir);
        throw;
    }
    fs::remove_all(dir);
    return o;
}

Reg r1("hist", History);
} // namespace
