// Whole models: volume, conditions, model information (M01, B01, C02).
#include "common.hpp"
#include <deque>
#include "model.hpp"

using namespace queso;
using namespace hv;

namespace {

json ModelEvent(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    const int threads = s.value("threads", 1);
    omp_set_num_threads(threads);
    json o;
    {
        ModelRun run(s, lat);
        EmbeddedModel model = EmbeddedModel::Create(Settings(s, lat));
        model.CreateVolume(run.mesh.View());
        for (size_t c = 0; c < run.cond_mesh.size(); ++c) model.CreateCondition(run.cond_mesh[c].View(), *run.cond_settings[c]);
        o = Snapshot(model, lat, n, run, s.value("ips", false));
        o["unchanged"] = run.Unchanged() ? 1 : 0;
    }
    omp_set_num_threads(1);
    return o;
}

// The same inputs with several thread counts and repetitions.
json Threads(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    json o;
    o["runs"] = json::array();
    std::vector<std::vector<double>> full_first;
    for (const auto& t : s["tc"]) {
        omp_set_num_threads(t.get<int>());
        ModelRun run(s, lat);
        auto p_settings = Settings(s, lat);
        json r;
        {
            BRepOperator brep(run.mesh.View());
            r["cls"] = json::array();
            const auto p_cls = brep.pGetElementClassifications(*p_settings);
            for (auto x : *p_cls)
                r["cls"].push_back(x == IntersectionState::inside ? "i" : x == IntersectionState::outside ? "o" : "t");
        }
        EmbeddedModel model = EmbeddedModel::Create(std::move(p_settings));
        model.CreateVolume(run.mesh.View());
        for (size_t c = 0; c < run.cond_mesh.size(); ++c) model.CreateCondition(run.cond_mesh[c].View(), *run.cond_settings[c]);
        json snap = Snapshot(model, lat, n, run, false);
        r["el"] = snap["el"];
        r["conds"] = snap["conds"];
        r["info"] = { snap["info"]["active"], snap["info"]["trimmed"], snap["info"]["full"], snap["info"]["inactive"] };
        // rules of the full elements: bitwise the same as in the first run
        std::map<IndexType, std::vector<double>> full;
        for (const auto& e : model.GetElementViews())
            if (!e.IsTrimmed()) {
                auto& v = full[e.GetId()];
                for (const auto& q : e.GetIntegrationPoints())
                    for (double x : { q[0], q[1], q[2], q.Weight() }) v.push_back(x);
            }
        std::vector<std::vector<double>> f;
        for (const auto& [id, v] : full) { f.push_back({ static_cast<double>(id) }); f.push_back(v); }
        if (o["runs"].empty()) full_first = f;
        // points of generalized rules may be assembled in another order: compare sorted with tolerance
        int same = f.size() == full_first.size() ? 1 : 0;
        for (size_t i = 0; same && i < f.size(); ++i) {
            if (f[i].size() != full_first[i].size()) { same = 0; break; }
            if (f[i].size() == 1) { same = f[i][0] == full_first[i][0]; continue; }
            using Q = std::array<double, 4>;
            std::vector<Q> a, b;
            for (size_t k = 0; k + 3 < f[i].size(); k += 4) {
                a.push_back({ f[i][k], f[i][k + 1], f[i][k + 2], f[i][k + 3] });
                b.push_back({ full_first[i][k], full_first[i][k + 1], full_first[i][k + 2], full_first[i][k + 3] });
            }
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            for (size_t k = 0; k < a.size(); ++k)
                for (int m = 0; m < 4; ++m)
                    if (!(std::abs(a[k][m] - b[k][m]) <= 1e-12 * std::max(1.0, std::abs(b[k][m])))) same = 0;
        }
        r["full"] = same;
        o["runs"].push_back(r);
    }
    omp_set_num_threads(1);
    return o;
}

// Many cells, many threads, again and again: a block in a large grid, crossed by flat conditions.
json Crowd(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    PointType lo{}, hi{};
    for (int a = 0; a < 3; ++a) {
        lo[a] = lat.X(a, s["lo"][a].get<int>());
        hi[a] = lat.X(a, s["hi"][a].get<int>());
    }
    const TriangleMesh mesh = MeshUtilities::MakeMeshBox(lo, hi);
    std::vector<TriangleMesh> sheets;
    std::vector<Unique<DictType>> settings;
    for (const auto& q : s["sheets"]) {
        TriangleMesh m;
        const double z = lat.X(2, q[4].get<int>());
        for (const auto& [x, y] : { std::pair(0, 1), std::pair(2, 1), std::pair(2, 3), std::pair(0, 3) })
            m.AddVertex(PointType{ lat.X(0, q[x].get<int>()), lat.X(1, q[y].get<int>()), z });
        m.AddTriangle({ 0, 1, 2 }, { 0, 0, 1 });
        m.AddTriangle({ 0, 2, 3 }, { 0, 0, 1 });
        sheets.push_back(m);
        settings.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
        settings.back()->SetValue(ConditionSettings::condition_id, static_cast<IndexType>(sheets.size()));
        settings.back()->SetValue(ConditionSettings::input_filename, std::string("cond.stl"));
        settings.back()->CheckRequired();
    }
    json o;
    o["runs"] = json::array();
    for (const auto& t : s["tc"]) {
        omp_set_num_threads(t.get<int>());
        json r;
        auto p_settings = Settings(s, lat);
        BRepOperator brep(mesh.View());
        int c[3] = { 0, 0, 0 };
        const auto p_cls = brep.pGetElementClassifications(*p_settings);
        for (auto x : *p_cls) ++c[x == IntersectionState::inside ? 0 : x == IntersectionState::trimmed ? 1 : 2];
        r["cls"] = { c[0], c[1], c[2] };
        EmbeddedModel model = EmbeddedModel::Create(std::move(p_settings));
        model.CreateVolume(mesh.View());
        for (size_t i = 0; i < sheets.size(); ++i) model.CreateCondition(sheets[i].View(), *settings[i]);
        const auto& info = model.GetModelInfo();
        const auto& g = info[MainInfo::background_grid_info];
        r["info"] = { Num<IndexType>(g, BackgroundGridInfo::num_full_elements), Num<IndexType>(g, BackgroundGridInfo::num_trimmed_elements),
                      Num<IndexType>(g, BackgroundGridInfo::num_inactive_elements) };
        int full = 0, cut = 0;
        std::set<IndexType> ids;
        double vol = 0;
        for (const auto& e : model.GetElementViews()) {
            ++(e.IsTrimmed() ? cut : full);
            ids.insert(e.GetId());
            for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) vol += q.Weight();
        }
        r["el"] = { full, cut, ids.size() };
        r["vol"] = R(vol / (lat.h[0] * lat.h[1] * lat.h[2]) * lat.U * lat.U * lat.U, 1000);
        r["conds"] = json::array();
        size_t ci = 0;
        const double unit = lat.h[0] * lat.h[1] / (lat.U * lat.U);
        for (const auto& cond : model.GetConditions()) {
            std::set<IndexType> cells;
            double all = 0, active = 0;
            for (const auto& sgm : cond.GetSegments()) {
                const double a = MeshUtilities::Area(sgm.GetTriangleMesh().View()) / unit;
                if (a > 1e-6) {
                    const auto bb = MeshUtilities::BoundingBox(sgm.GetTriangleMesh().View());
                    const int cx = static_cast<int>(std::floor((lat.L(0, bb.first[0]) + lat.L(0, bb.second[0])) / (2.0 * lat.U)));
                    const int cy = static_cast<int>(std::floor((lat.L(1, bb.first[1]) + lat.L(1, bb.second[1])) / (2.0 * lat.U)));
                    cells.insert(static_cast<IndexType>(cx + 1000 * cy));
                }
                all += a;
                if (sgm.IsInActiveElement()) active += a;
            }
            r["conds"].push_back({ { "n", cond.NumberOfSegments() }, { "cells", cells.size() }, { "all", R(all, 1000) }, { "active", R(active, 1000) },
                                   { "perc", Num<double>(*info.GetList(MainInfo::conditions_infos_list)[ci], ConditionInfo::perc_surf_area_in_active_domain, 100) } });
            ++ci;
        }
        o["runs"].push_back(r);
    }
    omp_set_num_threads(1);
    return o;
}

Reg r1("model", ModelEvent);
Reg r3("crowd", Crowd);
Reg r2("threads", Threads);
}
