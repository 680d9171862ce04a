// Inputs and observations of whole models.
#pragma once
#include "common.hpp"
#include "queso/embedded_model.h"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"

namespace hv {
using namespace queso;

inline TriangleMesh ConditionMesh(const json& c, const Lattice& lat, unsigned diag)
{
    if (c.contains("rects")) {
        std::vector<Rect> rects;
        for (const auto& r : c["rects"])
            rects.push_back(Rect{ r[0].get<int>() - 1, r[1], r[2], r[3], r[4], r[5], r[6] });
        return MeshFromRects(rects, lat, diag);
    }
    return MeshOf(Body::From(c), lat, diag);
}

inline std::vector<double> Flat(const TriangleMesh& m)
{
    std::vector<double> v;
    for (IndexType i = 0; i < m.NumOfVertices(); ++i)
        for (int a = 0; a < 3; ++a) v.push_back(m.Vertex(i)[a]);
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i)
        for (int a = 0; a < 3; ++a) { v.push_back(static_cast<double>(m.TriangleIndices()[i][a])); v.push_back(m.Normal(i)[a]); }
    return v;
}

struct ModelRun {
    TriangleMesh mesh;
    std::vector<TriangleMesh> cond_mesh;
    std::vector<Unique<DictType>> cond_settings;
    std::vector<std::vector<double>> before;
    ModelRun(const json& s, const Lattice& lat) : mesh(MeshOf(Body::From(s), lat, s))
    {
        before.push_back(Flat(mesh));
        if (s.contains("conds"))
            for (const auto& c : s["conds"]) {
                cond_mesh.push_back(ConditionMesh(c, lat, s.value("diag", 0u)));
                before.push_back(Flat(cond_mesh.back()));
                auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
                p->SetValue(ConditionSettings::condition_id, c["id"].get<IndexType>());
                p->SetValue(ConditionSettings::input_filename, std::string("cond.stl"));
                p->CheckRequired();
                cond_settings.push_back(std::move(p));
            }
    }
    bool Unchanged() const
    {
        if (Flat(mesh) != before[0]) return false;
        for (size_t i = 0; i < cond_mesh.size(); ++i)
            if (Flat(cond_mesh[i]) != before[i + 1]) return false;
        return true;
    }
};

template<class T, class K>
long long Num(const DictType& d, const K& key, double scale = 1)
{
    if (!d.IsSet(key)) return -1;
    d.CheckRequired();
    return R(static_cast<double>(d.GetRequiredValue<T>(key)), scale);
}

// Index of the cell that holds x, cells being half-open (lower, upper] except for the first one.
inline int CellAt(double x, int U, IndexType n)
{
    const double k = x / U;
    const double r = std::round(k);
    int c = std::abs(k - r) < 1e-7 ? static_cast<int>(r) - 1 : static_cast<int>(std::floor(k));
    if (c < 0 && k > -1e-7) c = 0;
    if (c < 0 || c >= static_cast<int>(n)) return -1;
    return c;
}

inline json SegmentFacts(const TriangleMesh& m, const Lattice& lat, const Vector3i& n, double& area, bool ips)
{
    json r;
    double A[6] = { 0, 0, 0, 0, 0, 0 };
    std::array<double, 3> lo{ 1e300, 1e300, 1e300 }, hi{ -1e300, -1e300, -1e300 };
    int badnormal = 0, badip = 0;
    area = 0;
    double unit[3];
    for (int a = 0; a < 3; ++a) unit[a] = lat.h[(a + 1) % 3] * lat.h[(a + 2) % 3] / (lat.U * lat.U);
    const double scale = std::min({ unit[0], unit[1], unit[2] });
    for (IndexType t = 0; t < m.NumOfTriangles(); ++t) {
        const auto tri = m.template Triangle<WithNormals>(t);
        PointType p[3];
        for (int k = 0; k < 3; ++k) p[k] = m.Vertex(m.TriangleIndices()[t][k]);
        double e1[3], e2[3];
        for (int a = 0; a < 3; ++a) { e1[a] = p[1][a] - p[0][a]; e2[a] = p[2][a] - p[0][a]; }
        const double c[3] = { 0.5 * (e1[1] * e2[2] - e1[2] * e2[1]), 0.5 * (e1[2] * e2[0] - e1[0] * e2[2]), 0.5 * (e1[0] * e2[1] - e1[1] * e2[0]) };
        const double at = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
        area += at;
        for (int a = 0; a < 3; ++a) {
            A[2 * a + (c[a] > 0 ? 1 : 0)] += std::abs(c[a]) / unit[a];
            for (int k = 0; k < 3; ++k) {
                lo[a] = std::min(lo[a], lat.L(a, p[k][a]));
                hi[a] = std::max(hi[a], lat.L(a, p[k][a]));
            }
        }
        const auto nv = m.Normal(t);
        double len = 0;
        for (int a = 0; a < 3; ++a) len += nv[a] * nv[a];
        if (!(std::abs(len - 1) < 1e-6)) badnormal += 1;
        if (at > 1e-7 * scale && !((nv[0] * c[0] + nv[1] * c[1] + nv[2] * c[2]) / at > 1 - 1e-6)) badnormal += 1;
        if (ips && at > 1e-7 * scale)
            for (IndexType method = 0; method < 4; ++method) {
                double w = 0;
                for (const auto& q : TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(tri, method)) {
                    w += q.Weight();
                    if (!(q.Weight() > 0)) badip += 1;
                    // barycentric coordinates and distance from the plane
                    double d[3];
                    for (int a = 0; a < 3; ++a) d[a] = q[a] - p[0][a];
                    auto cross = [](const double* x, const double* y, double* z) {
                        z[0] = x[1] * y[2] - x[2] * y[1];
                        z[1] = x[2] * y[0] - x[0] * y[2];
                        z[2] = x[0] * y[1] - x[1] * y[0];
                    };
                    double u[3], v[3];
                    cross(d, e2, u);
                    cross(e1, d, v);
                    double bu = 0, bv = 0, dn = 0, nn = 0;
                    for (int a = 0; a < 3; ++a) {
                        bu += u[a] * c[a];
                        bv += v[a] * c[a];
                        dn += d[a] * c[a];
                        nn += q.Normal()[a] * c[a] / at;
                    }
                    bu /= 2 * at * at;
                    bv /= 2 * at * at;
                    if (!(bu > -1e-7 && bv > -1e-7 && bu + bv < 1 + 1e-7)) badip += 1;
                    double ext = 0;
                    for (int a = 0; a < 3; ++a) ext = std::max({ ext, std::abs(e1[a]), std::abs(e2[a]), 1e-6 * std::abs(p[0][a]) });
                    if (!(std::abs(dn / at) <= 1e-7 * ext)) badip += 1;
                    if (!(nn > 1 - 1e-6)) badip += 1;
                }
                if (!(std::abs(w / at - 1) < 1e-9)) badip += 1;
            }
    }
    // twice the projected areas in lattice units, negative and positive orientation per axis
    r["a"] = json::array();
    for (double x : A) r["a"].push_back(R(2 * x, 1000));
    std::array<int, 3> cell;
    for (int a = 0; a < 3; ++a) cell[a] = CellAt(0.5 * (lo[a] + hi[a]), lat.U, n[a]);
    r["c"] = cell[0] < 0 || cell[1] < 0 || cell[2] < 0 ? -1 : cell[0] + static_cast<int>(n[0]) * (cell[1] + static_cast<int>(n[1]) * cell[2]);
    r["b"] = json::array();
    for (int a = 0; a < 3; ++a) {
        r["b"].push_back(R(lo[a] - lat.U * cell[a], 1000));
        r["b"].push_back(R(hi[a] - lat.U * cell[a], 1000));
    }
    r["bn"] = badnormal;
    r["bi"] = badip;
    return r;
}

inline json Snapshot(const EmbeddedModel& model, const Lattice& lat, const Vector3i& n, const ModelRun& run, bool ips)
{
    json o;
    const double unit = lat.h[0] * lat.h[1] * lat.h[2] / (lat.U * lat.U * lat.U);
    std::vector<json> el;
    double vol = 0;
    IndexType pf = 0, pt = 0, nt = 0, nf = 0;
    for (const auto& e : model.GetElementViews()) {
        double v = 0;
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) v += q.Weight();
        vol += v;
        const auto np = e.GetIntegrationPoints().size();
        if (e.IsTrimmed()) { pt += np; ++nt; } else { pf += np; ++nf; }
        el.push_back({ e.GetId(), e.IsTrimmed() ? 1 : 0, np, R(6 * v / unit, 1000) });
    }
    std::sort(el.begin(), el.end(), [](const json& a, const json& b) { return a[0].get<int>() < b[0].get<int>(); });
    o["el"] = el;
    const auto& info = model.GetModelInfo();
    const auto& g = info[MainInfo::embedded_geometry_info];
    const auto& q = info[MainInfo::quadrature_info];
    const auto& b = info[MainInfo::background_grid_info];
    json i;
    g.CheckRequired();
    q.CheckRequired();
    b.CheckRequired();
    i["closed"] = g.IsSet(EmbeddedGeometryInfo::is_closed) ? (g.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed) ? 1 : 0) : -1;
    i["volume"] = g.IsSet(EmbeddedGeometryInfo::volume) ? R(6 * g.GetRequiredValue<double>(EmbeddedGeometryInfo::volume) / unit, 1000) : -1;
    i["active"] = Num<IndexType>(b, BackgroundGridInfo::num_active_elements);
    i["trimmed"] = Num<IndexType>(b, BackgroundGridInfo::num_trimmed_elements);
    i["full"] = Num<IndexType>(b, BackgroundGridInfo::num_full_elements);
    i["inactive"] = Num<IndexType>(b, BackgroundGridInfo::num_inactive_elements);
    i["points"] = Num<IndexType>(q, QuadratureInfo::tot_num_points);
    i["rep"] = q.IsSet(QuadratureInfo::represented_volume) ? R(6 * q.GetRequiredValue<double>(QuadratureInfo::represented_volume) / unit, 1000) : -1;
    i["perc"] = Num<double>(q, QuadratureInfo::percentage_of_geometry_volume, 10000);
    i["ppf"] = Num<double>(q, QuadratureInfo::num_of_points_per_full_element, 10000);
    i["ppt"] = Num<double>(q, QuadratureInfo::num_of_points_per_trimmed_element, 10000);
    o["info"] = i;
    const double gvol = g.IsSet(EmbeddedGeometryInfo::volume) ? g.GetRequiredValue<double>(EmbeddedGeometryInfo::volume) : 0.0;
    o["tot"] = { { "perc", R(100 * vol / gvol, 10000) }, { "rep", R(6 * vol / unit, 1000) }, { "pf", pf }, { "pt", pt }, { "nf", nf }, { "nt", nt } };
    o["conds"] = json::array();
    const auto& infos = info.GetList(MainInfo::conditions_infos_list);
    size_t ci = 0;
    o["ninfos"] = infos.size();
    for (const auto& c : model.GetConditions()) {
        json r;
        r["id"] = c.GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id);
        std::vector<json> segs;
        double total = 0, active = 0;
        for (const auto& sgm : c.GetSegments()) {
            double area;
            json f = SegmentFacts(sgm.GetTriangleMesh(), lat, n, area, ips);
            f["act"] = sgm.IsInActiveElement() ? 1 : 0;
            f["par"] = sgm.GetParentElement() ? sgm.GetParentElement()->GetId() : 0;
            total += area;
            if (sgm.IsInActiveElement()) active += area;
            segs.push_back(f);
        }
        std::sort(segs.begin(), segs.end(), [](const json& x, const json& y) { return x["c"].get<int>() < y["c"].get<int>(); });
        r["segs"] = segs;
        r["nseg"] = c.NumberOfSegments();
        const double exact = [&] {
            double a = 0;
            for (IndexType t = 0; t < run.cond_mesh[ci].NumOfTriangles(); ++t) a += TriangleUtilities::Area(run.cond_mesh[ci].template Triangle<WithoutNormals>(t));
            return a;
        }();
        const DictType* p = ci < infos.size() ? infos[ci].get() : nullptr;
        if (p) p->CheckRequired();
        r["iid"] = p ? Num<IndexType>(*p, ConditionInfo::condition_id) : -1;
        r["own"] = p == &c.GetInfo() ? 1 : 0;
        r["area"] = p && p->IsSet(ConditionInfo::surf_area) ? R(p->GetRequiredValue<double>(ConditionInfo::surf_area) / exact, 1000000) : -1;
        r["perc"] = p ? Num<double>(*p, ConditionInfo::perc_surf_area_in_active_domain, 10000) : -1;
        r["share"] = R(active / exact * 100, 10000);
        o["conds"].push_back(r);
        ++ci;
    }
    return o;
}
} // namespace hv
