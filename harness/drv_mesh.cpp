// Histories of mesh operations and the triangle rules (K01).
#include "common.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/clipped_triangle_mesh.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"

using namespace queso;
using namespace hv;

namespace {

struct Foreign { // another mesh type: plain triangle soup
    std::vector<std::array<Vector3d, 3>> t;
};

bool Same(const auto& a, const auto& b)
{
    for (int k = 0; k < 3; ++k)
        if (!(a.P1[k] == b.P1[k] && a.P2[k] == b.P2[k] && a.P3[k] == b.P3[k])) return false;
    return true;
}
bool SameN(const auto& a, const auto& b, double tol = 0)
{
    if (!Same(a, b)) return false;
    for (int k = 0; k < 3; ++k)
        if (!(std::abs(a.Normal[k] - b.Normal[k]) <= tol)) return false;
    return true;
}

// every way of looking at a mesh shows the same triangles: number of differences
int Views(const TriangleMesh& mesh)
{
    int bad = 0;
    const IndexType n = mesh.NumOfTriangles();
    const TriangleMeshView v(mesh);
    const TriangleMeshView v2 = mesh.View();
    if (v.NumOfTriangles() != n || v2.NumOfTriangles() != n) ++bad;
    if (mesh.TriangleIndices().size() != n || mesh.Normals().size() != n || mesh.Vertices().size() != mesh.NumOfVertices()) return bad + 1;
    Foreign f;
    for (IndexType i = 0; i < n; ++i) {
        const auto t = mesh.Triangle<WithNormals>(i);
        if (!Same(mesh.Triangle<WithoutNormals>(i), t) || !SameN(v.Triangle<WithNormals>(i), t) || !Same(v2.Triangle<WithoutNormals>(i), t)) ++bad;
        const auto id = mesh.TriangleIndices()[i];
        for (int k = 0; k < 3; ++k) {
            if (mesh.Vertex(id[0])[k] != t.P1[k] || mesh.Vertices()[id[1]][k] != t.P2[k] || mesh.Vertex(id[2])[k] != t.P3[k]) ++bad;
            if (mesh.Normal(i)[k] != t.Normal[k] || mesh.Normals()[i][k] != t.Normal[k]) ++bad;
        }
        std::array<Vector3d, 3> x;
        for (int k = 0; k < 3; ++k) { x[0][k] = t.P1[k]; x[1][k] = t.P2[k]; x[2][k] = t.P3[k]; }
        f.t.push_back(x);
    }
    const TriangleMeshView fv(
        f, [](const Foreign& m) { return m.t.size(); },
        [](const Foreign& m, IndexType i) { return TriangleProxy<WithoutNormals>{ m.t[i][0], m.t[i][1], m.t[i][2] }; });
    ClippedTriangleMesh clip;
    clip.Reserve(n);
    for (const auto& x : mesh.Vertices()) clip.AddVertex(x);
    for (IndexType i = 0; i < n; ++i) clip.AddTriangle(mesh.TriangleIndices()[i], mesh.Normal(i));
    const auto cv = clip.MeshView();
    if (fv.NumOfTriangles() != n || cv.NumOfTriangles() != n || clip.NumOfTriangles() != n || clip.NumOfVertices() != mesh.NumOfVertices()) return bad + 1;
    for (IndexType i = 0; i < n; ++i) {
        const auto t = mesh.Triangle<WithNormals>(i);
        const bool flat = !(TriangleUtilities::Area(t) > 0);
        if (!SameN(fv.Triangle<WithNormals>(i), t, flat ? 2 : 1e-9) || !SameN(cv.Triangle<WithNormals>(i), t) || !SameN(clip.Triangle<WithNormals>(i), t)) ++bad;
    }
    // traversals: all, a subset, early end
    for (const TriangleMeshView* w : { &v, &fv, &cv }) {
        IndexType i = 0;
        w->VisitEachTriangle<WithNormals>([&](const auto& t) { if (!Same(t, mesh.Triangle<WithNormals>(i))) ++bad; ++i; });
        if (i != n) ++bad;
        i = 0;
        for (const auto& t : w->Triangles<WithoutNormals>()) { if (!Same(t, mesh.Triangle<WithNormals>(i))) ++bad; ++i; }
        if (i != n) ++bad;
        i = 0;
        w->Visit<WithoutNormals>([&](auto&& range) { for (const auto& t : range) { if (!Same(t, mesh.Triangle<WithNormals>(i))) ++bad; ++i; } });
        if (i != n) ++bad;
        std::vector<IndexType> sub;
        for (IndexType k = n; k-- > 0;) if (k % 3 != 1) sub.push_back(k);
        i = 0;
        w->VisitEachTriangle<WithNormals>(sub, [&](const auto& t) { if (!Same(t, mesh.Triangle<WithNormals>(sub[i]))) ++bad; ++i; });
        if (i != sub.size()) ++bad;
        i = 0;
        for (const auto& t : w->Triangles<WithNormals>(sub)) { if (!Same(t, mesh.Triangle<WithNormals>(sub[i]))) ++bad; ++i; }
        if (i != sub.size()) ++bad;
        i = 0;
        w->VisitEachTriangle<WithoutNormals>([&](const auto&) {
            ++i;
            return i == 3 ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop;
        });
        if (i != std::min<IndexType>(3, n)) ++bad;
    }
    return bad;
}

json Dump(const TriangleMesh& mesh, double h)
{
    json r;
    int chk = 1, badn = 0;
    try { mesh.Check(); } catch (const Exception&) { chk = 0; }
    r["t"] = json::array();
    std::map<std::pair<IndexType, IndexType>, int> edges;
    if (chk) {
        for (IndexType i = 0; i < mesh.NumOfTriangles(); ++i) {
            const auto t = mesh.Triangle<WithNormals>(i);
            json x = json::array();
            for (const auto& p : { t.P1, t.P2, t.P3 }) {
                json y = json::array();
                for (int k = 0; k < 3; ++k) y.push_back(RI(p[k] / h, 8, 1e-9));
                x.push_back(y);
            }
            r["t"].push_back(x);
            const auto id = mesh.TriangleIndices()[i];
            for (int k = 0; k < 3; ++k) ++edges[{ id[k], id[(k + 1) % 3] }];
            const Vector3d a = t.P2 - t.P1, b = t.P3 - t.P1;
            const Vector3d n = Math::Cross(a, b);
            const double l = Math::Norm(n);
            if (l > 1e-9 * h * h && !(Math::Dot(n, t.Normal) / l > 0.999999 && std::abs(Math::Norm(t.Normal) - 1) < 1e-9)) ++badn;
        }
    }
    int open = 0;
    for (const auto& [e, c] : edges) {
        const auto it = edges.find({ e.second, e.first });
        if (it == edges.end() || it->second != c || c != 1) ++open;
    }
    r["chk"] = chk;
    r["badn"] = badn;
    r["open"] = open;
    return r;
}

json MeshHistory(const json& s)
{
    const double h = s["h"].get<double>();
    const int R_ = 3;
    std::vector<TriangleMesh> m(R_);
    json o;
    o["r"] = json::array();
    for (const auto& op : s["ops"]) {
        const std::string k = op["op"];
        TriangleMesh& a = m[op["r"].get<size_t>() - 1];
        auto P = [&](const json& p) { return PointType{ h * p[0].get<int>() / 8.0, h * p[1].get<int>() / 8.0, h * p[2].get<int>() / 8.0 }; };
        json r;
        if (k == "box") a = MeshUtilities::MakeMeshBox(P(op["lo"]), P(op["hi"]));
        else if (k == "tri") {
            const auto p = P(op["p"][0]), q = P(op["p"][1]), t = P(op["p"][2]);
            const IndexType i0 = a.AddVertex(p), i1 = a.AddVertex(q), i2 = a.AddVertex(t);
            a.AddTriangle({ i0, i1, i2 }, TriangleUtilities::Normal(TriangleProxy<WithoutNormals>{ p, q, t }));
        } else if (k == "append") MeshUtilities::Append(a, m[op["b"].get<size_t>() - 1]);
        else if (k == "refine") MeshUtilities::Refine(a, op["mn"].get<IndexType>());
        else if (k == "remove") a.RemoveTriangle(op["t"].get<IndexType>() - 1);
        else if (k == "clear") a.Clear();
        else if (k == "copy") a = m[op["b"].get<size_t>() - 1];
        else if (k == "reserve") a.Reserve(100);
        else if (k == "look") {
            const auto v = a.View();
            const double h2 = h * h, h3 = h * h * h;
            r["n"] = a.NumOfTriangles();
            r["area"] = R(2 * MeshUtilities::Area(v) * 64 / h2, 10);
            r["areap"] = R(2 * MeshUtilities::AreaOMP(v) * 64 / h2, 10);
            r["vol"] = R(6 * MeshUtilities::Volume(v) * 512 / h3, 10);
            r["volp"] = R(6 * MeshUtilities::VolumeOMP(v) * 512 / h3, 10);
            r["vd"] = json::array();
            for (IndexType d = 0; d < 3; ++d) r["vd"].push_back(R(6 * MeshUtilities::Volume(v, d) * 512 / h3, 10));
            r["q"] = R(MeshUtilities::EstimateQuality(v), 1e6);
            const auto bb = MeshUtilities::BoundingBox(v);
            r["lo"] = json::array(); r["hi"] = json::array();
            for (int d = 0; d < 3; ++d) { r["lo"].push_back(RI(bb.first[d] / h, 8, 1e-9)); r["hi"].push_back(RI(bb.second[d] / h, 8, 1e-9)); }
            r["views"] = Views(a);
            double ar = 0, mr = 0;
            for (IndexType i = 0; i < a.NumOfTriangles(); ++i) {
                const double x = TriangleUtilities::AspectRatio(a.Triangle<WithoutNormals>(i));
                ar += x;
                mr = std::max(mr, x);
            }
            const double n = std::max<double>(1, static_cast<double>(a.NumOfTriangles()));
            r["asp"] = a.NumOfTriangles() == 0 || (std::abs(MeshUtilities::AverageAspectRatio(v) - ar / n) <= 1e-9 * (1 + ar / n) && MeshUtilities::MaxAspectRatio(v) == mr) ? 1 : 0;
        }
        // all registers: the operation must not touch the others
        r["m"] = json::array();
        for (const auto& x : m) r["m"].push_back(Dump(x, h));
        o["r"].push_back(r);
    }
    return o;
}

// rule on a triangle in barycentric coordinates
json TriRule(const json& s)
{
    const double h = s["h"].get<double>();
    PointType p[3];
    for (int j = 0; j < 3; ++j)
        for (int a = 0; a < 3; ++a) p[j][a] = h * (s["p"][j][a].get<int>() + (s["off"].get<int>() == 1 ? 100 : 0));
    const TriangleProxy<WithoutNormals> t{ p[0], p[1], p[2] };
    const int deg = s["deg"].get<int>();
    json o;
    const Vector3d u = p[1] - p[0], v = p[2] - p[0];
    const Vector3d n = Math::Cross(u, v);
    const double nn = Math::Dot(n, n);
    const double area = 0.5 * std::sqrt(nn);
    const auto ips = TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(t, s["method"].get<IndexType>());
    o["np"] = ips.size();
    int out = 0, badn = 0, neg = 0;
    std::map<std::array<int, 3>, double> mom;
    for (const auto& q : ips) {
        const Vector3d w{ q[0] - p[0][0], q[1] - p[0][1], q[2] - p[0][2] };
        const double l2 = Math::Dot(Math::Cross(w, v), n) / nn, l3 = Math::Dot(Math::Cross(u, w), n) / nn, l1 = 1 - l2 - l3;
        if (std::min({ l1, l2, l3 }) < -1e-9 || std::abs(Math::Dot(w, n)) > 1e-9 * nn) ++out;
        if (!(q.Weight() > 0)) ++neg;
        const auto m = q.Normal();
        if (!(Math::Dot(m, n) / std::sqrt(nn) > 1 - 1e-9 && std::abs(Math::Norm(m) - 1) < 1e-9)) ++badn;
        for (int i = 0; i <= deg; ++i)
            for (int j = 0; i + j <= deg; ++j)
                for (int k = 0; i + j + k <= deg; ++k) mom[{ i, j, k }] += q.Weight() / area * std::pow(l1, i) * std::pow(l2, j) * std::pow(l3, k);
    }
    o["out"] = out; o["badn"] = badn; o["neg"] = neg;
    o["area"] = R(2 * TriangleUtilities::Area(t) / (h * h), 1000);
    const auto c = TriangleUtilities::Center(t);
    o["c3"] = json::array();
    for (int a = 0; a < 3; ++a) o["c3"].push_back(R(3 * c[a] / h - (s["off"].get<int>() == 1 ? 300 : 0), 1000));
    const auto nm = TriangleUtilities::Normal(t);
    o["nrm"] = Math::Dot(nm, n) / std::sqrt(nn) > 1 - 1e-12 && std::abs(Math::Norm(nm) - 1) < 1e-12 ? 1 : 0;
    o["mom"] = json::array();
    for (const auto& [e, x] : mom) o["mom"].push_back({ e[0], e[1], e[2], R(x, 5e8) });
    return o;
}
// A box in many triangles, measured again and again by many threads.
json BigMesh(const json& s)
{
    const double h = s["h"].get<double>();
    PointType lo{}, hi{};
    for (int a = 0; a < 3; ++a) {
        lo[a] = h * s["lo"][a].get<int>();
        hi[a] = h * s["hi"][a].get<int>();
    }
    TriangleMesh m = MeshUtilities::MakeMeshBox(lo, hi);
    MeshUtilities::Refine(m, s["nt"].get<IndexType>());
    json o;
    o["n"] = m.NumOfTriangles();
    o["chk"] = 1;
    try { m.Check(); } catch (const Exception&) { o["chk"] = 0; }
    const auto v = m.View();
    o["s"] = { R(MeshUtilities::Area(v) / (h * h), 1000), R(MeshUtilities::Volume(v) / (h * h * h), 1000) };
    omp_set_num_threads(s["threads"].get<int>());
    o["p"] = json::array();
    for (int k = 0; k < s["rep"].get<int>(); ++k)
        o["p"].push_back({ R(MeshUtilities::AreaOMP(v) / (h * h), 1000), R(MeshUtilities::VolumeOMP(v) / (h * h * h), 1000) });
    omp_set_num_threads(1);
    return o;
}

Reg rb("bigmesh", BigMesh);
Reg r1("meshops", MeshHistory);
Reg r2("trirule", TriRule);
}
