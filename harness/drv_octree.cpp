// Octree of a trimmed cell (O01): refinement histories and the points they distribute.
#include "common.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/octree.h"
#include "queso/embedding/trimmed_domain.h"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/trimmed_element.hpp"

using namespace queso;
using namespace hv;

namespace {

using ElementType = TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;

json OctreeHistory(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    auto mesh = MeshOf(body, lat, s);
    BRepOperator brep(mesh.View());
    std::array<int, 3> cell{ s["cell"][0].get<int>(), s["cell"][1].get<int>(), s["cell"][2].get<int>() };
    PointType lo{}, hi{}, r0{}, r1{}, u0{}, u1{};
    const PointType pl{ -1, -2, 0 }, pu{ 1, 3, 0.5 };
    for (int a = 0; a < 3; ++a) {
        lo[a] = lat.X(a, lat.U * cell[a]);
        hi[a] = lat.X(a, lat.U * (cell[a] + 1));
        const int c0 = s["root"][0][a].get<int>(), c1 = s["root"][1][a].get<int>();
        r0[a] = lat.X(a, lat.U * cell[a] + c0);
        r1[a] = lat.X(a, lat.U * cell[a] + c1);
        u0[a] = pl[a] + (pu[a] - pl[a]) * c0 / lat.U;
        u1[a] = pl[a] + (pu[a] - pl[a]) * c1 / lat.U;
    }
    json o;
    o["dom"] = 0;
    o["r"] = json::array();
    if (brep.GetIntersectionState(lo, hi) != IntersectionState::trimmed) return o;
    auto p = brep.pGetTrimmedDomain(lo, hi, 1e-3, s["mintri"].get<IndexType>(), true);
    if (!p) return o;
    o["dom"] = 1;
    ElementType element(1, ElementBounds{ MakeBox(lo, hi), MakeBox(pl, pu) }, std::move(*p));
    Octree<ElementType> tree(&element, MakeBox(r0, r1), MakeBox(u0, u1));
    const double wroot = (u1[0] - u0[0]) * (u1[1] - u0[1]) * (u1[2] - u0[2]);
    for (const auto& op : s["ops"]) {
        json r;
        if (op["op"] == "refine") {
            r["ok"] = 1;
            try {
                tree.Refine(op["mn"].get<IndexType>(), op["mx"].get<IndexType>());
            } catch (const Exception&) {
                r["ok"] = 0;
            }
            r["leafs"] = tree.NumberOfLeafs();
            r["nodes"] = tree.NumberOfNodes();
            r["mn"] = tree.MinRefinementLevel();
            r["mx"] = tree.MaxRefinementLevel();
        } else {
            Vector3i order{ op["n"][0].get<IndexType>() - 1, op["n"][1].get<IndexType>() - 1, op["n"][2].get<IndexType>() - 1 };
            std::vector<IntegrationPoint> pts;
            r["kept"] = 1;
            if (op["add"].get<int>() == 1) {
                pts.push_back(IntegrationPoint({ 7.0, 8.0, 9.0 }, 5.0));
                tree.AddIntegrationPoints<ElementType>(pts, order);
                const auto& f = pts.front();
                if (!(f[0] == 7.0 && f[1] == 8.0 && f[2] == 9.0 && f.Weight() == 5.0)) r["kept"] = 0;
                pts.erase(pts.begin());
            } else {
                pts = *tree.pGetIntegrationPoints<ElementType>(order);
            }
            r["np"] = pts.size();
            r["pts"] = json::array();
            if (pts.size() <= 300) {
                for (const auto& q : pts) {
                    json x = json::array();
                    for (int a = 0; a < 3; ++a) x.push_back(R((q[a] - pl[a]) / (pu[a] - pl[a]) * lat.U, 80000));
                    x.push_back(R(q.Weight() / wroot, 1e9));
                    r["pts"].push_back(x);
                }
            }
        }
        o["r"].push_back(r);
    }
    return o;
}
Reg r1("octree", OctreeHistory);
}
