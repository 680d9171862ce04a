// Shared helpers of the conformance harness: scenario decoding, lattice bodies, observation encoding.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <omp.h>
#include <nlohmann/json.hpp>

#include "queso/includes/define.hpp"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"

using json = nlohmann::json;
using queso::IndexType;
using queso::PointType;
using queso::Vector3d;
using queso::Vector3i;
using DictType = queso::Dictionary<queso::key::MainValuesTypeTag>;

namespace hv {

// An axis-aligned lattice rectangle: normal axis `ax` with sign, plane coordinate c, extents on the two other axes
// (cyclic order ax+1, ax+2). All integers are lattice coordinates (U per background cell).
struct Rect {
    int ax, sign, c, u0, u1, v0, v1;
};

struct Lattice {
    int U{ 4 };
    std::array<double, 3> lower{ 0, 0, 0 };
    std::array<double, 3> h{ 1, 1, 1 }; // cell size
    double X(int axis, double c) const { return lower[axis] + h[axis] * (c / U); }
    PointType P(double x, double y, double z) const { return PointType{ X(0, x), X(1, y), X(2, z) }; }
    double L(int axis, double x) const { return (x - lower[axis]) / h[axis] * U; } // inverse
};

inline std::array<double, 3> D3(const json& j) { return { j[0].get<double>(), j[1].get<double>(), j[2].get<double>() }; }
inline Vector3i I3(const json& j) { return { j[0].get<IndexType>(), j[1].get<IndexType>(), j[2].get<IndexType>() }; }

// Bounded conversion double -> integer observation (TLC integers are 32 bit).
inline long long R(double v, double scale = 1.0)
{
    const double x = v * scale;
    if (!(x == x)) return 1000000001;
    if (x > 1.0e9) return 1000000000;
    if (x < -1.0e9) return -1000000000;
    return std::llround(x);
}
// "Nearly integral" conversion: returns the integer if v*scale is within tol of it, otherwise a sentinel.
constexpr long long NOTINT = 999999999;
inline long long RI(double v, double scale, double tol)
{
    const double x = v * scale;
    if (!(x == x)) return NOTINT;
    if (std::abs(x) > 9.0e8) return NOTINT;
    const double r = std::round(x);
    if (std::abs(x - r) > tol) return NOTINT;
    return static_cast<long long>(r);
}

// A solid: either a union of tensor-product boxes of plane coordinates ("box") or a union of Kuhn tetrahedra of a
// uniform macro lattice ("kuhn": every macro cube of size s is split into six tetrahedra x_a >= x_b >= x_c).
struct Tri {
    std::array<std::array<int, 3>, 3> v; // outward orientation
};

struct Body {
    bool kuhn{ false };
    std::array<std::vector<int>, 3> planes;
    int s{ 1 };
    std::array<int, 3> o{ 0, 0, 0 }, N{ 0, 0, 0 };
    std::vector<int> mat; // box: x fastest; kuhn: 6 * (x fastest cube index) + permutation index
    int nb(int a) const { return static_cast<int>(planes[a].size()) - 1; }
    bool in(int i, int j, int k) const
    {
        if (i < 0 || j < 0 || k < 0 || i >= nb(0) || j >= nb(1) || k >= nb(2)) return false;
        return mat[static_cast<size_t>(i + nb(0) * (j + nb(1) * k))] != 0;
    }
    static Body From(const json& s)
    {
        Body b;
        b.kuhn = s.value("kind", std::string("box")) == "kuhn";
        b.mat = s["mat"].get<std::vector<int>>();
        size_t expected;
        if (b.kuhn) {
            b.s = s["s"].get<int>();
            for (int a = 0; a < 3; ++a) { b.o[a] = s["o"][a].get<int>(); b.N[a] = s["N"][a].get<int>(); }
            expected = static_cast<size_t>(6 * b.N[0] * b.N[1] * b.N[2]);
        } else {
            for (int a = 0; a < 3; ++a) b.planes[a] = s["planes"][a].get<std::vector<int>>();
            expected = static_cast<size_t>(b.nb(0) * b.nb(1) * b.nb(2));
        }
        if (b.mat.size() != expected) throw std::runtime_error("bad scenario: mat size");
        return b;
    }
    std::vector<Rect> Faces() const
    {
        std::vector<Rect> out;
        for (int k = 0; k < nb(2); ++k)
            for (int j = 0; j < nb(1); ++j)
                for (int i = 0; i < nb(0); ++i) {
                    if (!in(i, j, k)) continue;
                    int id[3] = { i, j, k };
                    for (int a = 0; a < 3; ++a)
                        for (int s = -1; s <= 1; s += 2) {
                            int q[3] = { i, j, k };
                            q[a] += s;
                            if (in(q[0], q[1], q[2])) continue;
                            const int b = (a + 1) % 3, c = (a + 2) % 3;
                            out.push_back(Rect{ a, s, planes[a][id[a] + (s > 0 ? 1 : 0)], planes[b][id[b]],
                                planes[b][id[b] + 1], planes[c][id[c]], planes[c][id[c] + 1] });
                        }
                }
        return out;
    }
    // Boundary facets of the Kuhn tetrahedra: facets that belong to exactly one material tetrahedron.
    std::vector<Tri> Facets() const
    {
        static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
        std::map<std::array<std::array<int, 3>, 3>, std::pair<int, Tri>> count;
        std::vector<std::array<std::array<int, 3>, 3>> order;
        size_t idx = 0;
        for (int k = 0; k < N[2]; ++k)
            for (int j = 0; j < N[1]; ++j)
                for (int i = 0; i < N[0]; ++i)
                    for (int p = 0; p < 6; ++p, ++idx) {
                        if (!mat[idx]) continue;
                        std::array<std::array<int, 3>, 4> v{};
                        v[0] = { o[0] + s * i, o[1] + s * j, o[2] + s * k };
                        for (int m = 0; m < 3; ++m) {
                            v[m + 1] = v[m];
                            v[m + 1][perm[p][m]] += s;
                        }
                        for (int f = 0; f < 4; ++f) {
                            Tri t;
                            int q = 0;
                            for (int m = 0; m < 4; ++m)
                                if (m != f) t.v[q++] = v[m];
                            // orientation: normal must point away from v[f]
                            long e1[3], e2[3], d[3];
                            for (int a = 0; a < 3; ++a) {
                                e1[a] = t.v[1][a] - t.v[0][a];
                                e2[a] = t.v[2][a] - t.v[0][a];
                                d[a] = v[f][a] - t.v[0][a];
                            }
                            const long det = (e1[1] * e2[2] - e1[2] * e2[1]) * d[0] + (e1[2] * e2[0] - e1[0] * e2[2]) * d[1]
                                             + (e1[0] * e2[1] - e1[1] * e2[0]) * d[2];
                            if (det > 0) std::swap(t.v[1], t.v[2]);
                            auto key = t.v;
                            std::sort(key.begin(), key.end());
                            auto it = count.find(key);
                            if (it == count.end()) { count[key] = { 1, t }; order.push_back(key); }
                            else ++it->second.first;
                        }
                    }
        std::vector<Tri> out;
        for (const auto& key : order) {
            const auto& c = count[key];
            if (c.first == 1) out.push_back(c.second);
        }
        return out;
    }
};

// Triangulates rectangles into an indexed mesh with welded vertices. diag selects the diagonal, perm rotates corners.
inline queso::TriangleMesh MeshFromRects(const std::vector<Rect>& rects, const Lattice& lat, unsigned diag = 0)
{
    queso::TriangleMesh mesh;
    mesh.Reserve(2 * rects.size());
    std::map<std::array<int, 3>, IndexType> ids;
    auto vid = [&](std::array<int, 3> c) {
        auto it = ids.find(c);
        if (it != ids.end()) return it->second;
        IndexType v = mesh.AddVertex(lat.P(c[0], c[1], c[2]));
        ids[c] = v;
        return v;
    };
    unsigned n = 0;
    for (const auto& r : rects) {
        auto mk = [&](int u, int v) {
            std::array<int, 3> c{};
            c[r.ax] = r.c;
            c[(r.ax + 1) % 3] = u;
            c[(r.ax + 2) % 3] = v;
            return vid(c);
        };
        std::array<IndexType, 4> q{ mk(r.u0, r.v0), mk(r.u1, r.v0), mk(r.u1, r.v1), mk(r.u0, r.v1) };
        if (r.sign < 0) std::swap(q[1], q[3]);
        Vector3d nrm{ 0, 0, 0 };
        nrm[r.ax] = r.sign;
        const unsigned d = (diag >> (n % 16)) & 1u;
        ++n;
        if (d == 0) {
            mesh.AddTriangle(Vector3i{ q[0], q[1], q[2] }, nrm);
            mesh.AddTriangle(Vector3i{ q[0], q[2], q[3] }, nrm);
        } else {
            mesh.AddTriangle(Vector3i{ q[1], q[2], q[3] }, nrm);
            mesh.AddTriangle(Vector3i{ q[1], q[3], q[0] }, nrm);
        }
    }
    return mesh;
}

// Mesh from lattice facets (welded vertices). Normals are computed in physical space.
inline queso::TriangleMesh MeshFromTris(const std::vector<Tri>& tris, const Lattice& lat, unsigned rot = 0)
{
    queso::TriangleMesh mesh;
    mesh.Reserve(tris.size());
    std::map<std::array<int, 3>, IndexType> ids;
    unsigned n = 0;
    for (const auto& t : tris) {
        std::array<IndexType, 3> q{};
        for (int m = 0; m < 3; ++m) {
            const auto& c = t.v[m];
            auto it = ids.find(c);
            if (it == ids.end()) {
                q[m] = mesh.AddVertex(lat.P(c[0], c[1], c[2]));
                ids[c] = q[m];
            } else q[m] = it->second;
        }
        const unsigned r = (rot + n++) % 3;
        PointType p[3];
        for (int m = 0; m < 3; ++m) p[m] = lat.P(t.v[m][0], t.v[m][1], t.v[m][2]);
        double e1[3], e2[3];
        for (int a = 0; a < 3; ++a) { e1[a] = p[1][a] - p[0][a]; e2[a] = p[2][a] - p[0][a]; }
        double nv[3] = { e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0] };
        const double l = std::sqrt(nv[0] * nv[0] + nv[1] * nv[1] + nv[2] * nv[2]);
        mesh.AddTriangle(Vector3i{ q[r], q[(r + 1) % 3], q[(r + 2) % 3] }, Vector3d{ nv[0] / l, nv[1] / l, nv[2] / l });
    }
    return mesh;
}

inline queso::TriangleMesh MeshOf(const Body& b, const Lattice& lat, unsigned diag = 0)
{
    if (b.kuhn) return MeshFromTris(b.Facets(), lat, diag);
    return MeshFromRects(b.Faces(), lat, diag);
}

// The same surface in more triangles: every triangle is split into four, levels times (vertices welded).
inline queso::TriangleMesh Finer(const queso::TriangleMesh& coarse, const Lattice& lat, int levels)
{
    const int q = 1 << levels;
    queso::TriangleMesh mesh;
    mesh.Reserve(coarse.NumOfTriangles() << (2 * levels));
    std::map<std::array<long, 3>, IndexType> ids;
    using V = std::array<long, 3>;
    auto vid = [&](const V& c) {
        auto it = ids.find(c);
        if (it != ids.end()) return it->second;
        const IndexType v = mesh.AddVertex(lat.P(static_cast<double>(c[0]) / q, static_cast<double>(c[1]) / q, static_cast<double>(c[2]) / q));
        ids[c] = v;
        return v;
    };
    std::function<void(const V&, const V&, const V&, const Vector3d&, int)> split = [&](const V& a, const V& b, const V& c, const Vector3d& n, int l) {
        if (l == 0) {
            mesh.AddTriangle(Vector3i{ vid(a), vid(b), vid(c) }, n);
            return;
        }
        V ab, bc, ca;
        for (int k = 0; k < 3; ++k) { ab[k] = (a[k] + b[k]) / 2; bc[k] = (b[k] + c[k]) / 2; ca[k] = (c[k] + a[k]) / 2; }
        split(a, ab, ca, n, l - 1);
        split(ab, b, bc, n, l - 1);
        split(ca, bc, c, n, l - 1);
        split(ab, bc, ca, n, l - 1);
    };
    const queso::TriangleMeshView view(coarse);
    for (IndexType t = 0; t < coarse.NumOfTriangles(); ++t) {
        const auto tri = view.Triangle<queso::WithNormals>(t);
        V v[3];
        for (int k = 0; k < 3; ++k) {
            v[0][k] = std::lround(lat.L(k, tri.P1[k])) * q;
            v[1][k] = std::lround(lat.L(k, tri.P2[k])) * q;
            v[2][k] = std::lround(lat.L(k, tri.P3[k])) * q;
        }
        split(v[0], v[1], v[2], Vector3d{ tri.Normal[0], tri.Normal[1], tri.Normal[2] }, levels);
    }
    return mesh;
}

// The mesh of the body of a scenario.
inline queso::TriangleMesh MeshOf(const Body& b, const Lattice& lat, const json& s)
{
    auto mesh = MeshOf(b, lat, s.value("diag", 0u));
    return s.contains("fine") ? Finer(mesh, lat, s["fine"].get<int>()) : mesh;
}

inline queso::IntegrationMethod Method(const std::string& m)
{
    using M = queso::IntegrationMethod;
    static const std::map<std::string, M> t{ { "Gauss", M::gauss }, { "Gauss_Reduced1", M::gauss_reduced_1 },
        { "Gauss_Reduced2", M::gauss_reduced_2 }, { "GGQ_Optimal", M::ggq_optimal },
        { "GGQ_Reduced1", M::ggq_reduced_1 }, { "GGQ_Reduced2", M::ggq_reduced_2 } };
    return t.at(m);
}

// Settings from a scenario. Fields: n, lower, h, (uvw), p, method, grid, U, options.
inline queso::Unique<DictType> Settings(const json& s, const Lattice& lat)
{
    using namespace queso;
    auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    auto& g = (*p)[MainSettings::general_settings];
    g.SetValue(GeneralSettings::input_filename, s.value("file", std::string("none.stl")));
    g.SetValue(GeneralSettings::output_directory_name, s.value("outdir", std::string("queso_output")));
    g.SetValue(GeneralSettings::echo_level, static_cast<IndexType>(s.value("echo", 0)));
    g.SetValue(GeneralSettings::write_output_to_file, s.value("write", false));
    auto& b = (*p)[MainSettings::background_grid_settings];
    const Vector3i n = I3(s["n"]);
    PointType lo{ lat.lower[0], lat.lower[1], lat.lower[2] }, up{};
    for (int a = 0; a < 3; ++a) up[a] = lat.lower[a] + lat.h[a] * static_cast<double>(n[a]);
    const std::string grid = s.value("grid", std::string("b_spline_grid"));
    b.SetValue(BackgroundGridSettings::grid_type, grid == "b_spline_grid" ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, lo);
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, up);
    PointType ulo{ -1, -1, -1 }, uup{ 1, 1, 1 };
    if (s.contains("uvw")) {
        auto a0 = D3(s["uvw"][0]), a1 = D3(s["uvw"][1]);
        ulo = { a0[0], a0[1], a0[2] };
        uup = { a1[0], a1[1], a1[2] };
    } else if (grid == "b_spline_grid") {
        ulo = lo;
        uup = up;
    }
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, ulo);
    b.SetValue(BackgroundGridSettings::upper_bound_uvw, uup);
    b.SetValue(BackgroundGridSettings::number_of_elements, n);
    b.SetValue(BackgroundGridSettings::polynomial_order, I3(s["p"]));
    auto& q = (*p)[MainSettings::trimmed_quadrature_rule_settings];
    if (s.contains("residual")) q.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, s["residual"].get<double>());
    if (s.contains("min_vol")) q.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, s["min_vol"].get<double>());
    if (s.contains("min_tri")) q.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, s["min_tri"].get<IndexType>());
    if (s.contains("alpha")) q.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, s["alpha"].get<double>());
    (*p)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(
        NonTrimmedQuadratureRuleSettings::integration_method, Method(s.value("method", std::string("Gauss"))));
    p->CheckRequired();
    return p;
}

inline Lattice LatticeFrom(const json& s)
{
    Lattice l;
    l.U = s.value("U", 4);
    if (s.contains("lower")) l.lower = D3(s["lower"]);
    if (s.contains("h")) l.h = D3(s["h"]);
    return l;
}

using Handler = std::function<json(const json&)>;
std::map<std::string, Handler>& Registry();
struct Reg {
    Reg(const std::string& n, Handler h) { Registry()[n] = std::move(h); }
};

} // namespace hv
