// Point and box queries against a closed mesh (C03).
#include "common.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/geometry_query.h"

using namespace queso;
using namespace hv;

namespace {

// pts: [x,y,z] in units of 1/Q lattice; boxes: [[lo],[hi]] in units of 1/Q lattice.
json Query(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    auto mesh = MeshOf(body, lat, s);
    const double Q = s["Q"].get<int>();
    // of a large mesh, one triangle in "every" is judged, in units of 1/(Q 2^fine)
    const bool few = s.contains("fine");
    const IndexType every = few ? s["every"].get<IndexType>() : 1;
    const double QT = few ? Q * (1 << s["fine"].get<int>()) : Q;
    BRepOperator brep(mesh.View());
    json o;
    o["in"] = json::array();
    for (const auto& p : s["pts"]) {
        const PointType x = lat.P(p[0].get<int>() / Q, p[1].get<int>() / Q, p[2].get<int>() / Q);
        o["in"].push_back(brep.IsInside(x) ? 1 : 0);
    }
    o["box"] = json::array();
    for (const auto& b : s["boxes"]) {
        const PointType lo = lat.P(b[0][0].get<int>() / Q, b[0][1].get<int>() / Q, b[0][2].get<int>() / Q);
        const PointType hi = lat.P(b[1][0].get<int>() / Q, b[1][1].get<int>() / Q, b[1][2].get<int>() / Q);
        const auto st = brep.GetIntersectionState(lo, hi);
        json r;
        r["st"] = st == IntersectionState::inside ? "i" : st == IntersectionState::outside ? "o" : "t";
        r["tr"] = brep.IsTrimmed(lo, hi) ? 1 : 0;
        // the tree query has to deliver exactly the triangles that meet the interior of the box
        GeometryQuery gq(mesh.View(), true);
        auto ids = gq.GetIntersectedTriangleIds(lo, hi, RelativeSnapTolerance(lo, hi));
        std::sort(ids.begin(), ids.end());
        r["n"] = ids.size();
        r["dup"] = std::adjacent_find(ids.begin(), ids.end()) != ids.end() ? 1 : 0;
        if (few) {  // only the triangles reported below
            decltype(ids) kept;
            for (const auto i : ids) if (i % every == 0) kept.push_back(i / every);
            ids = kept;
        }
        r["ids"] = ids;
        o["box"].push_back(r);
    }
    o["tris"] = json::array();
    for (IndexType t = 0; t < mesh.NumOfTriangles(); t += every) {
        const auto tri = mesh.View().Triangle<WithoutNormals>(t);
        json v = json::array();
        for (const auto& p : { tri.P1, tri.P2, tri.P3 }) {
            json c = json::array();
            for (int a = 0; a < 3; ++a) c.push_back(RI(lat.L(a, p[a]), QT, 1e-6));
            v.push_back(c);
        }
        o["tris"].push_back(v);
    }
    return o;
}
Reg r1("query", Query);
}
