// Trimmed domains of the cells of a grid (T01): closed boundary, enclosed moments, bounds, queries.
#include "common.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/trimmed_domain.h"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/cell_domain.hpp"
#include "queso/utilities/mesh_utilities.h"

using namespace queso;
using namespace hv;

namespace {

struct Facts {
    Lattice lat;
    int U;
    std::array<int, 3> cell;
    // lattice coordinates relative to the lower corner of the cell
    template<typename P>
    std::array<double, 3> Rel(const P& p) const
    {
        return { lat.L(0, p[0]) - U * cell[0], lat.L(1, p[1]) - U * cell[1], lat.L(2, p[2]) - U * cell[2] };
    }
};

json MeshFacts(const Facts& f, const TriangleMeshView& mesh)
{
    json r;
    double area[3] = { 0, 0, 0 }, tot[3] = { 0, 0, 0 }, vol6 = 0, mom[3] = { 0, 0, 0 }, out = 0, planes[6] = { 0, 0, 0, 0, 0, 0 };
    double lo[3] = { 1e9, 1e9, 1e9 }, hi[3] = { -1e9, -1e9, -1e9 };
    int badnormal = 0;
    for (IndexType t = 0; t < mesh.NumOfTriangles(); ++t) {
        const auto tri = mesh.Triangle<WithNormals>(t);
        const auto a = f.Rel(tri.P1), b = f.Rel(tri.P2), c = f.Rel(tri.P3);
        double e1[3], e2[3], n[3], p1[3], p2[3], pn[3];
        for (int k = 0; k < 3; ++k) {
            e1[k] = b[k] - a[k]; e2[k] = c[k] - a[k];
            p1[k] = tri.P2[k] - tri.P1[k]; p2[k] = tri.P3[k] - tri.P1[k];
            for (double x : { a[k], b[k], c[k] }) {
                out = std::max({ out, -x, x - f.U });
                lo[k] = std::min(lo[k], x); hi[k] = std::max(hi[k], x);
            }
        }
        for (int k = 0; k < 3; ++k) {
            n[k] = e1[(k + 1) % 3] * e2[(k + 2) % 3] - e1[(k + 2) % 3] * e2[(k + 1) % 3];
            pn[k] = p1[(k + 1) % 3] * p2[(k + 2) % 3] - p1[(k + 2) % 3] * p2[(k + 1) % 3];
        }
        const double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
        const double pl = std::sqrt(pn[0] * pn[0] + pn[1] * pn[1] + pn[2] * pn[2]);
        if (l > 1e-4) {
            const double d = (pn[0] * tri.Normal[0] + pn[1] * tri.Normal[1] + pn[2] * tri.Normal[2]) / pl;
            if (!(d > 0.9999)) ++badnormal;
        }
        for (int k = 0; k < 3; ++k) {
            area[k] += n[k];
            tot[k] += std::abs(n[k]);
            if (std::max({ std::abs(a[k]), std::abs(b[k]), std::abs(c[k]) }) < 1e-4) planes[2 * k] -= 0.5 * n[k];
            if (std::max({ std::abs(a[k] - f.U), std::abs(b[k] - f.U), std::abs(c[k] - f.U) }) < 1e-4) planes[2 * k + 1] += 0.5 * n[k];
        }
        const double det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
        vol6 += det;
        for (int k = 0; k < 3; ++k) mom[k] += det * (a[k] + b[k] + c[k]);  // 24 * first moment
    }
    r["ntri"] = mesh.NumOfTriangles();
    r["area"] = json::array(); r["mom"] = json::array(); r["lo"] = json::array(); r["hi"] = json::array();
    r["tot"] = json::array(); r["pl"] = json::array();
    for (int k = 0; k < 3; ++k) {
        r["area"].push_back(R(area[k], 1000));
        r["tot"].push_back(R(tot[k], 1000));
        r["mom"].push_back(R(mom[k], 1000));
        r["lo"].push_back(R(lo[k], 1000));
        r["hi"].push_back(R(hi[k], 1000));
    }
    for (double x : planes) r["pl"].push_back(R(x, 1000));
    r["vol"] = R(vol6, 1000);
    r["out"] = R(out, 1e5);
    r["badn"] = badnormal;
    return r;
}

// sums over boundary integration points: volume by the divergence theorem and area
template<typename TIps>
void IpFacts(const Facts& f, const TIps& ips, const TriangleMeshView& mesh, json& r, double extra = 1.0)
{
    double flux = 0, w = 0, bad = 0;
    for (const auto& ip : ips) {
        const auto x = f.Rel(PointType{ ip[0], ip[1], ip[2] });
        double s = 0;
        for (int k = 0; k < 3; ++k) s += ip.Normal()[k] * (x[k] - f.U / 2.0) * f.lat.h[k] / f.U;
        flux += s * ip.Weight();
        w += ip.Weight();
        if (!(ip.Weight() > -1e-12 * mesh.NumOfTriangles())) bad += 1;
    }
    const double unit = f.lat.h[0] * f.lat.h[1] * f.lat.h[2] / (f.U * f.U * f.U);
    r["ipvol"] = R(2.0 * flux / unit * extra, 1000); // 6 * volume
    r["iparea"] = R(w / MeshUtilities::Area(mesh), 100000);
    r["ipneg"] = R(bad);
    r["nip"] = ips.size();
}

ElementBounds Bounds(const PointType& lo, const PointType& hi)
{ return ElementBounds{ MakeBox(lo, hi), MakeBox(PointType{ -1, -2, 0 }, PointType{ 1, 3, 0.5 }) }; }

json Trim(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    auto mesh = MeshOf(body, lat, s);
    const double Q = s["Q"].get<int>();
    BRepOperator brep(mesh.View());
    json o;
    o["cells"] = json::array();
    for (const auto& jc : s["cells"]) {
        Facts f{ lat, lat.U, { jc[0].get<int>(), jc[1].get<int>(), jc[2].get<int>() } };
        PointType lo{}, hi{};
        for (int a = 0; a < 3; ++a) { lo[a] = lat.X(a, lat.U * f.cell[a]); hi[a] = lat.X(a, lat.U * (f.cell[a] + 1)); }
        json r;
        if (brep.GetIntersectionState(lo, hi) != IntersectionState::trimmed) {
            r["st"] = "none";
            o["cells"].push_back(r);
            continue;
        }
        auto p = brep.pGetTrimmedDomain(lo, hi, s["minvol"].get<double>(), s["mintri"].get<IndexType>(), s.value("neglect", true));
        if (!p) {
            r["st"] = "drop";
            o["cells"].push_back(r);
            continue;
        }
        const auto eb = Bounds(lo, hi);
        r = MeshFacts(f, p->GetBoundaryMesh());
        r["st"] = "dom";
        IpFacts(f, p->GetBoundaryIps<BoundaryIntegrationPoint>(eb), p->GetBoundaryMesh(), r);
        const auto bb = p->GetBounds(eb);
        const auto bbp = p->GetBounds<CoordinateSpace::parametric>(eb);
        const auto l = f.Rel(bb.lower), h = f.Rel(bb.upper);
        r["bl"] = json::array(); r["bh"] = json::array(); r["pl0"] = json::array(); r["ph0"] = json::array();
        for (int a = 0; a < 3; ++a) {
            r["bl"].push_back(R(l[a], 1000)); r["bh"].push_back(R(h[a], 1000));
            const double w = eb.parametric.upper[a] - eb.parametric.lower[a];
            r["pl0"].push_back(R((bbp.lower[a] - eb.parametric.lower[a]) / w * lat.U, 1000));
            r["ph0"].push_back(R((bbp.upper[a] - eb.parametric.lower[a]) / w * lat.U, 1000));
        }
        // queries relative to the cell, in 1/Q lattice units
        r["in"] = json::array();
        for (const auto& q : s["pts"]) {
            PointType x{}, u{};
            for (int a = 0; a < 3; ++a) {
                const double c = q[a].get<int>() / Q;
                x[a] = lat.X(a, lat.U * f.cell[a] + c);
                u[a] = eb.parametric.lower[a] + (eb.parametric.upper[a] - eb.parametric.lower[a]) * c / lat.U;
            }
            const bool in1 = p->IsInside(x), in2 = p->IsInside(x, eb), in3 = p->IsInside<CoordinateSpace::parametric>(u, eb);
            r["in"].push_back(in1 == in2 && in2 == in3 ? (in1 ? 1 : 0) : 2);
        }
        r["box"] = json::array();
        for (const auto& b : s["boxes"]) {
            PointType x0{}, x1{}, u0{}, u1{};
            for (int a = 0; a < 3; ++a) {
                const double c0 = b[0][a].get<int>(), c1 = b[1][a].get<int>();
                x0[a] = lat.X(a, lat.U * f.cell[a] + c0);
                x1[a] = lat.X(a, lat.U * f.cell[a] + c1);
                const double w = eb.parametric.upper[a] - eb.parametric.lower[a];
                u0[a] = eb.parametric.lower[a] + w * c0 / lat.U;
                u1[a] = eb.parametric.lower[a] + w * c1 / lat.U;
            }
            const double tol = 10 * RelativeSnapTolerance(lo, hi);
            const auto g = p->GetIntersectionState(x0, x1, eb, tol);
            const auto q = p->GetIntersectionState<CoordinateSpace::parametric>(u0, u1, eb, tol);
            r["box"].push_back(g != q ? "?" : g == IntersectionState::inside ? "i" : g == IntersectionState::outside ? "o" : "t");
        }
        o["cells"].push_back(r);
    }
    return o;
}

// The domain of an untrimmed element is the whole cell.
json FullCell(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    Facts f{ lat, lat.U, { s["cell"][0].get<int>(), s["cell"][1].get<int>(), s["cell"][2].get<int>() } };
    PointType lo{}, hi{};
    for (int a = 0; a < 3; ++a) { lo[a] = lat.X(a, lat.U * f.cell[a]); hi[a] = lat.X(a, lat.U * (f.cell[a] + 1)); }
    const auto eb = Bounds(lo, hi);
    CellDomain d;
    json o = MeshFacts(f, d.GetBoundaryMesh(eb));
    const auto ips = d.GetBoundaryIps<BoundaryIntegrationPoint>(eb);
    IpFacts(f, ips, d.GetBoundaryMesh(eb), o);
    // surface points on each of the six faces: accumulated weight relative to the area of the face
    double fw[6] = { 0, 0, 0, 0, 0, 0 };
    for (const auto& ip : ips) {
        const auto x = f.Rel(PointType{ ip[0], ip[1], ip[2] });
        for (int a = 0; a < 3; ++a) {
            const double ar = lat.h[(a + 1) % 3] * lat.h[(a + 2) % 3];
            if (std::abs(x[a]) < 1e-6 && ip.Normal()[a] < -0.999999) fw[2 * a] += ip.Weight() / ar;
            if (std::abs(x[a] - lat.U) < 1e-6 && ip.Normal()[a] > 0.999999) fw[2 * a + 1] += ip.Weight() / ar;
        }
    }
    o["fw"] = json::array();
    for (double x : fw) o["fw"].push_back(R(x, 1000));
    const double Q = s["Q"].get<int>();
    o["in"] = json::array();
    for (const auto& q : s["pts"]) {
        PointType x{}, u{};
        for (int a = 0; a < 3; ++a) {
            const double c = q[a].get<int>() / Q;
            x[a] = lat.X(a, lat.U * f.cell[a] + c);
            u[a] = eb.parametric.lower[a] + (eb.parametric.upper[a] - eb.parametric.lower[a]) * c / lat.U;
        }
        const bool in1 = d.IsInside(x, eb), in2 = d.IsInside<CoordinateSpace::parametric>(u, eb);
        o["in"].push_back(in1 == in2 ? (in1 ? 1 : 0) : 2);
    }
    o["box"] = json::array();
    for (const auto& b : s["boxes"]) {
        PointType x0{}, x1{}, u0{}, u1{};
        for (int a = 0; a < 3; ++a) {
            const double c0 = b[0][a].get<int>(), c1 = b[1][a].get<int>();
            x0[a] = lat.X(a, lat.U * f.cell[a] + c0);
            x1[a] = lat.X(a, lat.U * f.cell[a] + c1);
            const double w = eb.parametric.upper[a] - eb.parametric.lower[a];
            u0[a] = eb.parametric.lower[a] + w * c0 / lat.U;
            u1[a] = eb.parametric.lower[a] + w * c1 / lat.U;
        }
        const double tol = 1e-9 * std::min({ lat.h[0], lat.h[1], lat.h[2] });
        const auto g = d.GetIntersectionState(x0, x1, eb, tol);
        const auto q = d.GetIntersectionState<CoordinateSpace::parametric>(u0, u1, eb, 1e-9);
        o["box"].push_back(g != q ? "?" : g == IntersectionState::inside ? "i" : g == IntersectionState::outside ? "o" : "t");
    }
    return o;
}
Reg r1("trim", Trim);
Reg r2("fullcell", FullCell);
}
