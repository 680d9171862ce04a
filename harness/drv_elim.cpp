// Elimination of points on prescribed candidates and moments (Q01).
#include "common.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/trimmed_element.hpp"
#include "queso/quadrature/trimmed_element.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/polynomial_utilities.hpp"

using namespace queso;
using namespace hv;

namespace {

using ElementType = TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;

template<class Q>
struct Open : Q {
    // Whether there still is such a step, to be called like this.
    template<class E>
    static constexpr bool Has()
    {
        return requires(const std::vector<double>& c, typename E::IntegrationPointVectorType& p, E& e, const Vector3i& o) {
            { Open::PointElimination(c, p, e, o, 1.0) } -> std::convertible_to<double>;
        };
    }
    template<class E>
    static double Run(const std::vector<double>& c, typename E::IntegrationPointVectorType& p, E& e, const Vector3i& o, double r)
    {
        if constexpr (Has<E>()) return Open::PointElimination(c, p, e, o, r);
        else return -1.0;
    }
};
using Rule = Open<QuadratureTrimmedElement<ElementType>>;

json Elim(const json& s)
{
    if constexpr (!Rule::Has<ElementType>()) return json{ { "na", 1 } };
    const Lattice lat = LatticeFrom(s); // the cell is the first one, with U = 4
    PointType lo{}, hi{}, pl{}, pu{}, mid{};
    for (int a = 0; a < 3; ++a) {
        lo[a] = lat.X(a, 0);
        hi[a] = lat.X(a, lat.U);
        mid[a] = a == 0 ? lat.X(a, lat.U / 2) : hi[a] + lat.h[a];
        pl[a] = s["uv"][a][0].get<double>();
        pu[a] = s["uv"][a][1].get<double>();
    }
    PointType out{ lo[0] - lat.h[0], lo[1] - lat.h[1], lo[2] - lat.h[2] };
    TriangleMesh mesh;
    MeshUtilities::Append(mesh, MeshUtilities::MakeMeshBox(out, mid));
    BRepOperator brep(mesh);
    auto p = brep.pGetTrimmedDomain(lo, hi, 1e-3, 20, true);
    if (!p) return json{ { "na", 1 } };
    ElementType e(1, ElementBounds{ MakeBox(lo, hi), MakeBox(pl, pu) }, std::move(*p));
    const Vector3i order{ s["p"][0].get<IndexType>(), s["p"][1].get<IndexType>(), s["p"][2].get<IndexType>() };
    double jac = 1;
    for (int a = 0; a < 3; ++a) jac *= (hi[a] - lo[a]) / (pu[a] - pl[a]);
    const auto at = [&](const json& q) {
        PointType r;
        for (int a = 0; a < 3; ++a) r[a] = pl[a] + (pu[a] - pl[a]) * q[a].get<int>() / 4.0;
        return r;
    };
    const double unit = s["unit"].get<double>();
    const auto terms = [&](const std::vector<std::pair<PointType, double>>& v) {
        std::vector<double> c;
        for (IndexType i = 0; i <= order[0]; ++i)
            for (IndexType j = 0; j <= order[1]; ++j)
                for (IndexType k = 0; k <= order[2]; ++k) {
                    double m = 0;
                    for (const auto& [q, w] : v)
                        m += w * Polynomial::f_x(q[0], i, pl[0], pu[0]) * Polynomial::f_x(q[1], j, pl[1], pu[1]) * Polynomial::f_x(q[2], k, pl[2], pu[2]);
                    c.push_back(m);
                }
        return c;
    };
    std::vector<std::pair<PointType, double>> want, got;
    for (const auto& q : s["t"]) want.push_back({ at(q), q[3].get<int>() * unit });
    const auto c = terms(want);
    ElementType::IntegrationPointVectorType pts;
    for (const auto& q : s["c"]) pts.push_back(IntegrationPoint(at(q), 1.0));
    const double res = Rule::Run<ElementType>(c, pts, e, order, std::pow(10.0, -s["resexp"].get<int>()));
    json o;
    o["np"] = e.GetIntegrationPoints().size();
    o["neg"] = 0;
    o["pts"] = json::array();
    std::vector<double> mom(s["nm"].get<std::size_t>(), 0.0);
    for (const auto& q : e.GetIntegrationPoints()) {
        const double w = q.Weight() * jac;
        o["neg"] = o["neg"].get<int>() + !(w > 0);
        json x = json::array();
        double rel[3];
        for (int a = 0; a < 3; ++a) {
            rel[a] = (q[a] - pl[a]) / (pu[a] - pl[a]) * 4.0;
            x.push_back(R(rel[a], 1000));
            rel[a] -= 2.0;
        }
        o["pts"].push_back(x);
        got.push_back({ PointType{ q[0], q[1], q[2] }, w });
        std::size_t m = 0;
        for (IndexType i = 0; i <= order[0]; ++i)
            for (IndexType j = 0; j <= order[1]; ++j)
                for (IndexType k = 0; k <= order[2]; ++k)
                    mom[m++] += w / unit * std::pow(rel[0], i) * std::pow(rel[1], j) * std::pow(rel[2], k);
    }
    o["mom"] = json::array();
    for (double v : mom) o["mom"].push_back(R(v, 1000));
    const auto d = terms(got);
    double num = 0, den = 0;
    for (std::size_t i = 0; i < c.size(); ++i) {
        num += (c[i] - d[i]) * (c[i] - d[i]);
        den += c[i] * c[i];
    }
    const double own = std::sqrt(num / den);
    o["said"] = std::abs(own - res) <= 1e-6 * std::max(own, res) + 1e-12 ? 1 : 0;
    o["met"] = own <= std::pow(10.0, -s["resexp"].get<int>()) ? 1 : 0;
    o["claim"] = res <= std::pow(10.0, -s["resexp"].get<int>()) ? 1 : 0;
    return o;
}

Reg r0("elim", Elim);
}
