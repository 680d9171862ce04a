// Generalized Gaussian quadrature: one-dimensional rules and rules of whole models (Q03).
#include "common.hpp"
#include "queso/embedded_model.h"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"

using namespace queso;
using namespace hv;

namespace {

// Integral of (x - k)_+^m (side > 0) or (k - x)_+^m (side < 0) over [a, b].
long double Cell(long double a, long double b, long double k, int m, int side)
{
    if (side < 0) return Cell(-b, -a, -k, m, 1);
    if (b <= k) return 0;
    const long double lo = a > k ? a - k : 0;
    return (std::pow(b - k, static_cast<long double>(m + 1)) - std::pow(lo, static_cast<long double>(m + 1))) / (m + 1);
}
long double Fun(long double x, long double k, int m, int side)
{
    const long double d = side > 0 ? x - k : k - x;
    if (m == 0) return d > 0 ? 1 : 0;
    return d > 0 ? std::pow(d, static_cast<long double>(m)) : 0;
}

json Ggq1d(const json& s)
{
    const int e = s["e"].get<int>(), mmax = s["mmax"].get<int>();
    const auto p_rule = IntegrationPointFactory1D::GetGGQ(s["p"].get<IndexType>(), s["e"].get<IndexType>(), Method(s["method"]));
    json o;
    int out = 0, neg = 0, order = 0;
    std::vector<double> xs;
    for (const auto& q : *p_rule) {
        if (!(q[0] > 0 && q[0] < 1)) ++out;
        if (!(q[1] > 0)) ++neg;
        xs.push_back(q[0]);
    }
    std::sort(xs.begin(), xs.end());
    for (size_t i = 1; i < xs.size(); ++i)
        if (!(xs[i] - xs[i - 1] > 1e-9)) ++order;
    o["np"] = p_rule->size();
    o["out"] = out;
    o["neg"] = neg;
    o["dup"] = order;
    o["err"] = json::array(); // [knot][degree] relative error of both one-sided powers, in 1e-10
    for (int k = 0; k < e; ++k) {
        json row = json::array();
        for (int m = 0; m <= mmax; ++m) {
            long double worst = 0;
            for (int side : { 1, -1 }) {
                if (k == 0 && side < 0) continue;
                long double sum = 0;
                for (const auto& q : *p_rule) sum += q[1] * e * Fun(static_cast<long double>(q[0]) * e, k, m, side);
                const long double exact = Cell(0, e, k, m, side);
                worst = std::max(worst, std::abs(sum / exact - 1));
            }
            row.push_back(R(static_cast<double>(worst), 1e10));
        }
        o["err"].push_back(row);
    }
    return o;
}

json Ggq(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Vector3i n = I3(s["n"]);
    const TriangleMesh mesh = MeshOf(Body::From(s), lat, s.value("diag", 0u));
    EmbeddedModel model = EmbeddedModel::Create(Settings(s, lat));
    model.CreateVolume(mesh.View());
    json o;
    int out = 0, neg = 0;
    std::vector<std::array<long double, 4>> pts; // in cell coordinates
    std::vector<std::array<int, 3>> cells;
    o["full"] = json::array();
    std::vector<json> rows;
    for (const auto& e : model.GetElementViews()) {
        if (e.IsTrimmed()) continue;
        const IndexType i = e.GetId() - 1;
        const std::array<int, 3> c{ static_cast<int>(i % n[0]), static_cast<int>((i / n[0]) % n[1]), static_cast<int>(i / (n[0] * n[1])) };
        cells.push_back(c);
        const auto b = e.GetCellBounds<CoordinateSpace::parametric>();
        std::array<double, 3> len;
        for (int a = 0; a < 3; ++a) len[a] = b.upper[a] - b.lower[a];
        double own = 0;
        for (const auto& q : e.GetIntegrationPoints()) {
            std::array<long double, 4> x;
            bool in = true;
            for (int a = 0; a < 3; ++a) {
                const double u = (q[a] - b.lower[a]) / len[a];
                if (!(u > -1e-9 && u < 1 + 1e-9)) in = false;
                x[a] = c[a] + u;
            }
            x[3] = q.Weight() / (len[0] * len[1] * len[2]);
            own += static_cast<double>(x[3]);
            if (!in) ++out;
            if (!(q.Weight() > 0)) ++neg;
            pts.push_back(x);
        }
        rows.push_back(json::array({ e.GetId(), e.GetIntegrationPoints().size() }));
    }
    std::sort(rows.begin(), rows.end(), [](const json& x, const json& y) { return x[0].get<int>() < y[0].get<int>(); });
    o["full"] = rows;
    o["out"] = out;
    o["neg"] = neg;
    long double w = 0;
    for (const auto& x : pts) w += x[3];
    o["w"] = R(static_cast<double>(w), 1e6);
    o["err"] = json::array();
    for (const auto& t : s["tests"]) { // three factors: knot, degree, side
        long double sum = 0, exact = 0;
        for (const auto& x : pts) {
            long double f = x[3];
            for (int a = 0; a < 3; ++a) f *= Fun(x[a], t[a][0].get<int>(), t[a][1].get<int>(), t[a][2].get<int>());
            sum += f;
        }
        for (const auto& c : cells) {
            long double f = 1;
            for (int a = 0; a < 3; ++a) f *= Cell(c[a], c[a] + 1, t[a][0].get<int>(), t[a][1].get<int>(), t[a][2].get<int>());
            exact += f;
        }
        o["err"].push_back(R(static_cast<double>(exact > 0 ? std::abs(sum / exact - 1) : std::abs(sum)), 1e9));
    }
    return o;
}

Reg r1("ggq1d", Ggq1d);
Reg r2("ggq", Ggq);
}
