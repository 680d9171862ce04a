// Grid indexing, cell bounds, traversal and coordinate mappings (G01).
#include "common.hpp"
#include "queso/containers/grid_indexer.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/utilities/mapping_utilities.hpp"

using namespace queso;
using namespace hv;

namespace {

int Info(GridIndexer::IndexInfo i)
{ return i == GridIndexer::IndexInfo::middle ? 0 : i == GridIndexer::IndexInfo::local_end ? 1 : 2; }

using Dir = GridIndexer::Direction;
constexpr Dir kDirs[6] = { Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward };

bool Same(const BoundingBoxType& a, const BoundingBoxType& b)
{
    for (int k = 0; k < 3; ++k)
        if (a.lower[k] != b.lower[k] || a.upper[k] != b.upper[k]) return false;
    return true;
}

json Grid(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    const auto p_settings = Settings(s, lat);
    const GridIndexer g(*p_settings);
    const auto& bs = (*p_settings)[MainSettings::background_grid_settings];
    const PointType x0 = bs.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_xyz),
                    x1 = bs.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz),
                    u0 = bs.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_uvw),
                    u1 = bs.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_uvw);
    const IndexType N = n[0] * n[1] * n[2];
    json o;
    o["N"] = g.NumberOfElements();
    int over = 0, gaps = 0;
    o["ix"] = json::array();
    o["bx"] = json::array();
    o["bu"] = json::array();
    const auto frac = [](double x, double a, double b, IndexType m) { return R((x - a) / (b - a) * static_cast<double>(m), 1000); };
    const bool spline = s.value("grid", std::string("b_spline_grid")) == "b_spline_grid";
    for (IndexType i = 0; i < N; ++i) {
        const Vector3i q = g.GetMatrixIndicesFromVectorIndex(i);
        const IndexType back = g.GetVectorIndexFromMatrixIndices(q);
        if (g.GetVectorIndexFromMatrixIndices(q[0], q[1], q[2]) != back) ++over;
        o["ix"].push_back({ q[0], q[1], q[2], back });
        const auto bx = g.GetBoundingBoxXYZFromIndex(i);
        const auto bu = g.GetBoundingBoxUVWFromIndex(i);
        if (!Same(bx, g.GetBoundingBoxXYZFromIndex(q)) || !Same(bx, g.GetBoundingBoxXYZFromIndex(q[0], q[1], q[2]))) ++over;
        if (!Same(bu, g.GetBoundingBoxUVWFromIndex(q)) || !Same(bu, g.GetBoundingBoxUVWFromIndex(q[0], q[1], q[2]))) ++over;
        json a = json::array(), b = json::array();
        for (size_t k = 0; k < 3; ++k) {
            a.push_back(frac(bx.lower[k], x0[k], x1[k], n[k]));
            a.push_back(frac(bx.upper[k], x0[k], x1[k], n[k]));
            b.push_back(frac(bu.lower[k], u0[k], u1[k], spline ? n[k] : 1));
            b.push_back(frac(bu.upper[k], u0[k], u1[k], spline ? n[k] : 1));
            // neighbors share their bounds
            const double tolx = 1e-9 * (x1[k] - x0[k]) / static_cast<double>(n[k]), tolu = 1e-9 * (u1[k] - u0[k]) / static_cast<double>(n[k]);
            Vector3i t = q;
            if (q[k] + 1 < n[k]) {
                t[k] += 1;
                if (!(std::abs(g.GetBoundingBoxXYZFromIndex(t).lower[k] - bx.upper[k]) <= tolx)) ++gaps;
                if (spline && !(std::abs(g.GetBoundingBoxUVWFromIndex(t).lower[k] - bu.upper[k]) <= tolu)) ++gaps;
            }
        }
        o["bx"].push_back(a);
        o["bu"].push_back(b);
    }
    o["over"] = over;
    o["gaps"] = gaps;
    // traversal of partitions: per cell (x fastest) and direction: next cell, info, is-end
    o["walk"] = json::array();
    for (const auto& p : s["parts"]) {
        const PartitionBoxType part{ I3(p[0]), I3(p[1]) };
        const bool global = p[2].get<int>() == 1; // the whole grid: also through the calls without partition
        json w = json::array();
        for (IndexType k = part.first[2]; k <= part.second[2]; ++k)
            for (IndexType j = part.first[1]; j <= part.second[1]; ++j)
                for (IndexType i = part.first[0]; i <= part.second[0]; ++i) {
                    const IndexType id = g.GetVectorIndexFromMatrixIndices(i, j, k);
                    json row = json::array();
                    for (const Dir d : kDirs) {
                        const auto r = g.GetNextIndex(id, d, part);
                        GridIndexer::IndexReturnType direct;
                        switch (d) {
                        case Dir::x_forward: direct = global ? g.GetNextIndexX(id) : g.GetNextIndexX(id, part); break;
                        case Dir::x_backward: direct = global ? g.GetPreviousIndexX(id) : g.GetPreviousIndexX(id, part); break;
                        case Dir::y_forward: direct = global ? g.GetNextIndexY(id) : g.GetNextIndexY(id, part); break;
                        case Dir::y_backward: direct = global ? g.GetPreviousIndexY(id) : g.GetPreviousIndexY(id, part); break;
                        case Dir::z_forward: direct = global ? g.GetNextIndexZ(id) : g.GetNextIndexZ(id, part); break;
                        default: direct = global ? g.GetPreviousIndexZ(id) : g.GetPreviousIndexZ(id, part); break;
                        }
                        if (direct != r) ++over;
                        if (global && g.GetNextIndex(id, d) != r) ++over;
                        const bool end = global ? g.IsEnd(id, d) : g.IsEnd(id, d, part);
                        if (end != g.IsEnd(id, d, part)) ++over;
                        row.push_back({ r.first, Info(r.second), end ? 1 : 0 });
                    }
                    w.push_back({ { "c", id }, { "d", row } });
                }
        o["walk"].push_back(w);
    }
    o["over"] = over;
    int rev = 0;
    for (const Dir d : kDirs)
        if (static_cast<int>(GridIndexer::ReverseDirection(d)) != (static_cast<int>(d) ^ 1)) ++rev;
    o["rev"] = rev;
    // element mapping: relative coordinates (milli) in the cell go to the same relative coordinates
    o["maps"] = json::array();
    for (const auto& m : s["maps"]) {
        const IndexType id = m["c"].get<IndexType>();
        const ElementBounds b{ g.GetBoundingBoxXYZFromIndex(id), g.GetBoundingBoxUVWFromIndex(id) };
        PointType xi, x;
        Vector3d nv{ m["nv"][0].get<double>(), m["nv"][1].get<double>(), m["nv"][2].get<double>() };
        double len = std::sqrt(nv[0] * nv[0] + nv[1] * nv[1] + nv[2] * nv[2]);
        for (int a = 0; a < 3; ++a) {
            const double t = m["t"][a].get<double>() / 1000.0;
            xi[a] = b.parametric.lower[a] + t * (b.parametric.upper[a] - b.parametric.lower[a]);
            x[a] = b.global.lower[a] + t * (b.global.upper[a] - b.global.lower[a]);
            nv[a] /= len;
        }
        json r;
        const auto rel = [](const PointType& p, const BoundingBoxType& bb) {
            json v = json::array();
            for (int a = 0; a < 3; ++a) v.push_back(R((p[a] - bb.lower[a]) / (bb.upper[a] - bb.lower[a]), 1000));
            return v;
        };
        r["g"] = rel(mapping::ToGlobal(xi, b), b.global);
        r["p"] = rel(mapping::ToParametric(x, b), b.parametric);
        r["gp"] = rel(mapping::ToParametric(mapping::ToGlobal(xi, b), b), b.parametric);
        r["pg"] = rel(mapping::ToGlobal(mapping::ToParametric(x, b), b), b.global);
        double vg = 1, vp = 1;
        for (int a = 0; a < 3; ++a) {
            vg *= b.global.upper[a] - b.global.lower[a];
            vp *= b.parametric.upper[a] - b.parametric.lower[a];
        }
        r["det"] = R(mapping::DetJ(b) * vp / vg, 1e8);
        const IntegrationPoint ip(xi, vp); // stands for the whole cell
        const IntegrationPoint ig = mapping::ToGlobal(ip, b);
        r["ipg"] = rel(ig.Point(), b.global);
        r["ipw"] = R(ig.Weight() / vg, 1e8);
        const IntegrationPoint ib = mapping::ToParametric(ig, b);
        r["ipb"] = R(ib.Weight() / vp, 1e8);
        // boundary points: weight times normal is an area vector; per axis it scales like the cell face
        const BoundaryIntegrationPoint bp(xi, 1.0, nv);
        const BoundaryIntegrationPoint bg = mapping::ToGlobal(bp, b);
        r["bpg"] = rel(bg.Point(), b.global);
        json av = json::array();
        double ln = 0;
        for (int a = 0; a < 3; ++a) {
            const int c = (a + 1) % 3, d = (a + 2) % 3;
            const double face = (b.global.upper[c] - b.global.lower[c]) * (b.global.upper[d] - b.global.lower[d])
                                / ((b.parametric.upper[c] - b.parametric.lower[c]) * (b.parametric.upper[d] - b.parametric.lower[d]));
            av.push_back(R(bg.Weight() * bg.Normal()[a] / face * len, 1e6));
            ln += bg.Normal()[a] * bg.Normal()[a];
        }
        r["bpa"] = av;
        r["bpn"] = R(ln, 1e8);
        const BoundaryIntegrationPoint bb = mapping::ToParametric(bg, b);
        r["bpb"] = { R(bb.Weight(), 1e8), R(bb.Normal()[0] * len, 1e6), R(bb.Normal()[1] * len, 1e6), R(bb.Normal()[2] * len, 1e6) };
        o["maps"].push_back(r);
    }
    return o;
}

Reg r1("grid", Grid);
}
