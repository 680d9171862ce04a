// Quadrature rules of trimmed and full elements of a model (Q01, Q02, Q04).
#include "common.hpp"
#include <regex>
#include "queso/embedded_model.h"
#include "queso/utilities/mesh_utilities.h"

using namespace queso;
using namespace hv;

namespace {

struct Capture {
    std::ostringstream buf;
    std::streambuf* old;
    Capture() : old(std::cout.rdbuf(buf.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

std::map<IndexType, double> Residuals(const std::string& log)
{
    static const std::regex re("is not achieved for element id: ([0-9]+)\\. Residual: ([-+.0-9eEinfa]+?)\\.?\\n");
    std::map<IndexType, double> r;
    for (auto it = std::sregex_iterator(log.begin(), log.end(), re); it != std::sregex_iterator(); ++it)
        r[std::stoul((*it)[1])] = std::stod((*it)[2]);
    return r;
}

// Everything is expressed in lattice units of the cell of the element.
struct CellFrame {
    Lattice lat;
    Vector3i n;
    std::array<int, 3> cell;
    CellFrame(const Lattice& l, const Vector3i& nn, IndexType id) : lat(l), n(nn)
    {
        const IndexType i = id - 1;
        cell = { static_cast<int>(i % n[0]), static_cast<int>((i / n[0]) % n[1]), static_cast<int>(i / (n[0] * n[1])) };
    }
    template<typename P>
    std::array<double, 3> Rel(const P& p) const
    { return { lat.L(0, p[0]) - lat.U * cell[0], lat.L(1, p[1]) - lat.U * cell[1], lat.L(2, p[2]) - lat.U * cell[2] }; }
    double Unit() const { return lat.h[0] * lat.h[1] * lat.h[2] / (lat.U * lat.U * lat.U); } // volume of a lattice cube
};

template<typename E>
json ElementFacts(const CellFrame& f, const E& e, const std::array<int, 3>& deg, double momscale)
{
    json r;
    r["id"] = e.GetId();
    r["t"] = e.IsTrimmed() ? 1 : 0;
    const auto global = e.template GetIntegrationPoints<CoordinateSpace::global>();
    const auto& local = e.GetIntegrationPoints();
    const auto bg = e.template GetCellBounds<CoordinateSpace::global>();
    const auto bp = e.template GetCellBounds<CoordinateSpace::parametric>();
    r["np"] = local.size();
    r["b"] = json::array();
    {
        const auto l = f.Rel(bg.lower), h = f.Rel(bg.upper);
        for (int a = 0; a < 3; ++a) { r["b"].push_back(R(l[a], 1000)); r["b"].push_back(R(h[a], 1000)); }
    }
    int neg = 0, mism = 0;
    if (global.size() != local.size()) mism += 1;
    r["pts"] = json::array();
    r["w"] = json::array();
    std::vector<double> mom(static_cast<size_t>((deg[0] + 1) * (deg[1] + 1) * (deg[2] + 1)), 0.0);
    size_t i = 0;
    double jac = 1;
    for (int a = 0; a < 3; ++a) jac *= (bg.upper[a] - bg.lower[a]) / (bp.upper[a] - bp.lower[a]);
    for (const auto& q : global) {
        const auto x = f.Rel(q);
        const auto& l = *(local.begin() + static_cast<std::ptrdiff_t>(i++));
        for (int a = 0; a < 3; ++a) {
            const double u = (l[a] - bp.lower[a]) / (bp.upper[a] - bp.lower[a]) * f.lat.U;
            if (!(std::abs(u - x[a]) < 1e-6)) mism += 1;
        }
        const double w = q.Weight() / f.Unit();
        if (!(std::abs(l.Weight() * jac / f.Unit() - w) <= 1e-9 * std::max(1.0, std::abs(w)))) mism += 1;
        if (!(q.Weight() > 0)) neg += 1;
        r["pts"].push_back({ R(x[0], 1000), R(x[1], 1000), R(x[2], 1000) });
        r["w"].push_back(R(w, 100000));
        size_t m = 0;
        for (int i0 = 0; i0 <= deg[0]; ++i0)
            for (int i1 = 0; i1 <= deg[1]; ++i1)
                for (int i2 = 0; i2 <= deg[2]; ++i2)
                    mom[m++] += w * std::pow(x[0] - f.lat.U / 2.0, i0) * std::pow(x[1] - f.lat.U / 2.0, i1)
                                * std::pow(x[2] - f.lat.U / 2.0, i2) * (i0 + 1) * (i1 + 1) * (i2 + 1);
    }
    r["neg"] = neg;
    r["mism"] = mism;
    r["mom"] = json::array();
    for (double v : mom) r["mom"].push_back(R(v, momscale));
    return r;
}

struct Model {
    EmbeddedModel model;
    std::map<IndexType, double> res;
};

Model Build(const json& s, const Lattice& lat, const TriangleMesh& mesh)
{
    json t = s;
    t["echo"] = 3;
    Capture cap;
    Model m{ EmbeddedModel::Create(Settings(t, lat)), {} };
    m.model.CreateVolume(mesh.View());
    m.res = Residuals(cap.buf.str());
    return m;
}

int ResExp(double r) // largest e with r <= 10^-e, at least 0
{
    if (!(r > 0)) return 15;
    int e = 0;
    while (e < 15 && r <= std::pow(10.0, -(e + 1)) * (1 + 1e-9)) ++e;
    return e;
}

json Quad(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    const auto mesh = MeshOf(body, lat, s.value("diag", 0u));
    const Vector3i n = I3(s["n"]);
    const Model m = Build(s, lat, mesh);
    std::array<int, 3> deg;
    for (int a = 0; a < 3; ++a) deg[a] = s["deg"][a].get<int>();
    json o;
    o["el"] = json::array();
    double total = 0;
    for (const auto& e : m.model.GetElementViews()) {
        CellFrame f(lat, n, e.GetId());
        if (e.IsTrimmed()) o["el"].push_back(ElementFacts(f, e, deg, 1000));
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) total += q.Weight() / f.Unit();
    }
    o["sum"] = R(6 * total, 10000);
    const auto& info = m.model.GetModelInfo();
    const double unit = lat.h[0] * lat.h[1] * lat.h[2] / (lat.U * lat.U * lat.U);
    o["rep"] = R(6 * info[MainInfo::quadrature_info].GetRequiredValue<double>(QuadratureInfo::represented_volume) / unit, 10000);
    o["warn"] = json::array();
    for (const auto& w : m.res) o["warn"].push_back({ w.first, ResExp(w.second) });
    return o;
}

// Model without and with fictitious domain.
json Fict(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    const auto mesh = MeshOf(body, lat, s.value("diag", 0u));
    const Vector3i n = I3(s["n"]);
    json t = s;
    t.erase("alpha");
    const Model m0 = Build(t, lat, mesh);
    const Model m1 = Build(s, lat, mesh);
    json o;
    for (int k = 0; k < 2; ++k) {
        const auto& m = k ? m1 : m0;
        json a = json::array();
        for (const auto& e : m.model.GetElementViews()) {
            json r = ElementFacts(CellFrame(lat, n, e.GetId()), e, { 0, 0, 0 }, 1000);
            r.erase("mom");
            a.push_back(r);
        }
        std::sort(a.begin(), a.end(), [](const json& x, const json& y) { return x["id"].get<int>() < y["id"].get<int>(); });
        o[k ? "with" : "without"] = a;
        double total = 0;
        for (const auto& e : m.model.GetElementViews())
            for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) total += q.Weight();
        const auto& info = m.model.GetModelInfo();
        const double rep = info[MainInfo::quadrature_info].GetRequiredValue<double>(QuadratureInfo::represented_volume);
        o[k ? "rep1" : "rep0"] = R(total > 0 ? rep / total : (rep == 0 ? 1.0 : 0.0), 1000000);
        o[k ? "ntot1" : "ntot0"] = info[MainInfo::quadrature_info].GetRequiredValue<IndexType>(QuadratureInfo::tot_num_points);
    }
    o["warn"] = json::array();
    for (const auto* m : { &m0, &m1 })
        for (const auto& w : m->res) o["warn"].push_back(w.first);
    return o;
}

// Full elements: a solid that contains the whole grid.
json Full(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    const auto mesh = MeshOf(body, lat, s.value("diag", 0u));
    const Vector3i n = I3(s["n"]);
    const Model m = Build(s, lat, mesh);
    json o;
    o["el"] = json::array();
    for (const auto& e : m.model.GetElementViews()) {
        CellFrame f(lat, n, e.GetId());
        json r = ElementFacts(f, e, { 0, 0, 0 }, 1000);
        r.erase("mom");
        r.erase("w");
        // distinct coordinates per direction, in order of their first occurrence
        const auto global = e.GetIntegrationPoints<CoordinateSpace::global>();
        r["grid"] = json::array();
        for (int a = 0; a < 3; ++a) {
            std::vector<double> c;
            for (const auto& q : global) {
                const double x = f.Rel(q)[a] / lat.U;
                if (std::none_of(c.begin(), c.end(), [&](double y) { return std::abs(x - y) < 1e-7; })) c.push_back(x);
            }
            json g = json::array();
            for (double x : c) g.push_back(R(x, 1000000));
            r["grid"].push_back(g);
        }
        r["gw"] = json::array(); // weight relative to the cell
        double strictly = 1;
        for (const auto& q : global) {
            r["gw"].push_back(R(q.Weight() / f.Unit() / (lat.U * lat.U * lat.U), 100000000));
            for (int a = 0; a < 3; ++a) {
                const double x = f.Rel(q)[a] / lat.U;
                strictly = std::min({ strictly, x, 1 - x });
            }
        }
        r["strict"] = strictly > 1e-6 ? 1 : 0;
        r["mom"] = json::array();
        for (const auto& k : s["mono"]) {
            double v = 0;
            for (const auto& q : global) {
                const auto x = f.Rel(q);
                double z = q.Weight() / f.Unit() / (lat.U * lat.U * lat.U);
                for (int a = 0; a < 3; ++a) z *= std::pow(x[a] / lat.U, k[a].get<int>()) * (k[a].get<int>() + 1);
                v += z;
            }
            r["mom"].push_back(R(v, 100000000));
        }
        // exactness per direction up to degree 2n-1
        r["ax"] = json::array();
        for (int a = 0; a < 3; ++a) {
            json g = json::array();
            for (int k = 0; k <= s["kmax"].get<int>(); ++k) {
                double v = 0;
                for (const auto& q : global)
                    v += q.Weight() / f.Unit() / (lat.U * lat.U * lat.U) * std::pow(f.Rel(q)[a] / lat.U, k) * (k + 1);
                g.push_back(R(v, 100000000));
            }
            r["ax"].push_back(g);
        }
        r["detj"] = R(e.DetJ() / (lat.h[0] * lat.h[1] * lat.h[2])
                          * ((e.GetCellBounds<CoordinateSpace::parametric>().upper[0] - e.GetCellBounds<CoordinateSpace::parametric>().lower[0])
                              * (e.GetCellBounds<CoordinateSpace::parametric>().upper[1] - e.GetCellBounds<CoordinateSpace::parametric>().lower[1])
                              * (e.GetCellBounds<CoordinateSpace::parametric>().upper[2] - e.GetCellBounds<CoordinateSpace::parametric>().lower[2])), 1000000);
        // parametric cell bounds relative to the parametric grid bounds of the scenario, in 1/1000 of the cell
        const auto bp = e.GetCellBounds<CoordinateSpace::parametric>();
        r["pb"] = json::array();
        for (int a = 0; a < 3; ++a) {
            double lo = lat.lower[a], w = lat.h[a] * static_cast<double>(n[a]);
            if (s.contains("uvw")) { lo = s["uvw"][0][a]; w = s["uvw"][1][a].get<double>() - lo; }
            const bool fe = s.value("grid", std::string("b_spline_grid")) != "b_spline_grid";
            const double cw = fe ? w : w / static_cast<double>(n[a]);
            r["pb"].push_back(R((bp.lower[a] - lo) / cw, 1000));
            r["pb"].push_back(R((bp.upper[a] - lo) / cw, 1000));
        }
        o["el"].push_back(r);
    }
    return o;
}

// A thin, inclined plate in a single cell: z0 - sx x - sy y <= z <= ... + t, x and y in a rectangle (coordinates relative to the cell).
json Plate(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const double t = std::pow(10.0, -s["t"].get<int>()) * s["tm"].get<int>(), z0 = s["z0"].get<int>() / 100.0;
    const double sx = s["sl"][0].get<int>() / 100.0, sy = s["sl"][1].get<int>() / 100.0;
    const auto to = [&](const PointType& q) {
        PointType r;
        for (int a = 0; a < 3; ++a) r[a] = lat.lower[a] + lat.h[a] * q[a];
        return r;
    };
    TriangleMesh box, mesh;
    MeshUtilities::Append(box, MeshUtilities::MakeMeshBox(PointType{ s["x"][0].get<int>() / 100.0, s["y"][0].get<int>() / 100.0, 0.0 },
                                   PointType{ s["x"][1].get<int>() / 100.0, s["y"][1].get<int>() / 100.0, t }));
    for (const auto& v : box.Vertices()) mesh.AddVertex(to(PointType{ v[0], v[1], v[2] + z0 - sx * v[0] - sy * v[1] }));
    for (const auto& i : box.TriangleIndices()) {
        const Vector3d e1 = mesh.Vertex(i[1]) - mesh.Vertex(i[0]), e2 = mesh.Vertex(i[2]) - mesh.Vertex(i[0]);
        Vector3d nrm{ e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0] };
        const double l = std::sqrt(nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]);
        nrm /= l;
        mesh.AddTriangle(i, nrm);
    }
    const Model m = Build(s, lat, mesh);
    json o;
    o["el"] = json::array();
    const double vol = (s["x"][1].get<int>() - s["x"][0].get<int>()) / 100.0 * (s["y"][1].get<int>() - s["y"][0].get<int>()) / 100.0 * t;
    for (const auto& e : m.model.GetElementViews()) {
        std::array<double, 6> b{ 1e9, -1e9, 1e9, -1e9, 1e9, -1e9 };
        std::array<double, 4> mom{ 0, 0, 0, 0 };
        int np = 0, neg = 0;
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) {
            std::array<double, 3> x{};
            for (int a = 0; a < 3; ++a) x[a] = (q[a] - lat.lower[a]) / lat.h[a];
            const double w = q.Weight() / (lat.h[0] * lat.h[1] * lat.h[2]) / vol;
            mom[0] += w;
            for (int a = 0; a < 3; ++a) mom[a + 1] += w * x[a];
            x[2] = (x[2] - z0 + sx * x[0] + sy * x[1]) / t;
            for (int a = 0; a < 3; ++a) {
                b[2 * a] = std::min(b[2 * a], x[a]);
                b[2 * a + 1] = std::max(b[2 * a + 1], x[a]);
            }
            ++np;
            neg += !(w > 0);
        }
        json r{ { "np", np }, { "neg", neg }, { "id", e.GetId() } };
        r["b"] = json::array();
        for (double v : b) r["b"].push_back(R(v, 100000));
        r["m"] = json::array();
        for (double v : mom) r["m"].push_back(R(v, 1000000));
        o["el"].push_back(r);
    }
    o["warn"] = m.res.size();
    return o;
}

Reg r0("plate", Plate);
Reg r1("quad", Quad);
Reg r2("fict", Fict);
Reg r3("full", Full);
}
