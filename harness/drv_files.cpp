// Files written for models, meshes and conditions, parsed back (I02); histories of the buffered binary writer.
#include "common.hpp"
#include <cstring>
#include <set>
#include <filesystem>
#include <unistd.h>
#include "model.hpp"
#include "queso/containers/clipped_triangle_mesh.hpp"
#include "queso/io/binary_buffer_writer.hpp"
#include "queso/io/io_utilities.h"
namespace fs = std::filesystem;

using namespace queso;
using namespace hv;

namespace {

using Enc = IO::EncodingType;

std::string Slurp(const fs::path& f)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream b;
    b << in.rdbuf();
    return b.str();
}

// ---- buffered writer
template<class T>
void Value(BinaryBufferWriter& w, const std::vector<unsigned char>& b, size_t n)
{
    if (n == 1) {
        T v;
        std::memcpy(&v, b.data(), sizeof(T));
        w.WriteValue(v);
    } else {
        T a[3];
        std::memcpy(a, b.data(), 3 * sizeof(T));
        w.WriteArray(a);
    }
}

json BufW(const json& s)
{
    const fs::path f = "bufw" + std::to_string(getpid()) + ".bin";
    json o;
    o["at"] = json::array();
    const auto bytes = [&f] {
        json r = json::array();
        for (const char c : Slurp(f)) r.push_back(static_cast<int>(static_cast<unsigned char>(c)));
        return r;
    };
    {
        std::ofstream out(f, std::ios::binary);
        {
            BinaryBufferWriter w(out, s["big"].get<int>() ? BinaryBufferWriter::EndianType::big : BinaryBufferWriter::EndianType::little,
                s["cap"].get<IndexType>());
            for (const auto& op : s["ops"]) {
                const std::string k = op["op"];
                std::vector<unsigned char> b;
                for (const auto& x : op["b"]) b.push_back(static_cast<unsigned char>(x.get<int>()));
                if (k == "raw") w.WriteRaw(reinterpret_cast<const char*>(b.data()), b.size());
                else if (k == "flush") {
                    w.Flush();
                    out.flush();
                } else {
                    const size_t n = k == "arr" ? 3 : 1, z = b.size() / n;
                    const bool fl = op.value("f", 0) != 0;
                    if (z == 1) Value<std::uint8_t>(w, b, n);
                    else if (z == 2) Value<std::uint16_t>(w, b, n);
                    else if (z == 4) { if (fl) Value<float>(w, b, n); else Value<std::uint32_t>(w, b, n); }
                    else if (z == 8) { if (fl) Value<double>(w, b, n); else Value<std::uint64_t>(w, b, n); }
                    else throw std::logic_error("bad size");
                }
                o["at"].push_back(k == "flush" ? bytes() : json::array());
            }
        }
    }
    o["end"] = bytes();
    fs::remove(f);
    return o;
}

// ---- parsers
struct Vtk {
    bool ok{ false }, binary{ false };
    std::vector<std::array<double, 3>> pts;
    long long np{ -1 }, nc{ -1 }, csize{ -1 }, nt{ -1 }, pd{ -1 }, rest{ 0 };
    std::vector<std::vector<long long>> cells;
    std::vector<long long> types;
    std::vector<double> w;
};

struct Cursor {
    const std::string& c;
    size_t p{ 0 };
    bool bad{ false };
    std::string Line()
    {
        const size_t e = c.find('\n', p);
        if (e == std::string::npos) { bad = true; return ""; }
        std::string r = c.substr(p, e - p);
        p = e + 1;
        return r;
    }
    void Blank() { while (p < c.size() && std::isspace(static_cast<unsigned char>(c[p]))) ++p; }
    std::string Token()
    {
        Blank();
        const size_t b = p;
        while (p < c.size() && !std::isspace(static_cast<unsigned char>(c[p]))) ++p;
        if (b == p) bad = true;
        return c.substr(b, p - b);
    }
    template<class T>
    T Be()
    {
        if (p + sizeof(T) > c.size()) { bad = true; p = c.size(); return T{}; }
        unsigned char b[sizeof(T)];
        for (size_t i = 0; i < sizeof(T); ++i) b[sizeof(T) - 1 - i] = static_cast<unsigned char>(c[p + i]);
        p += sizeof(T);
        T v;
        std::memcpy(&v, b, sizeof(T));
        return v;
    }
    double D(bool bin)
    {
        if (bin) return Be<double>();
        const std::string t = Token();
        char* e = nullptr;
        const double v = std::strtod(t.c_str(), &e);
        if (t.empty() || *e) bad = true;
        return v;
    }
    long long I(bool bin)
    {
        if (bin) return Be<std::int32_t>();
        const std::string t = Token();
        char* e = nullptr;
        const long long v = std::strtoll(t.c_str(), &e, 10);
        if (t.empty() || *e) bad = true;
        return v;
    }
    std::vector<std::string> Words()
    {
        Blank();
        std::istringstream is(Line());
        std::vector<std::string> w;
        std::string x;
        while (is >> x) w.push_back(x);
        return w;
    }
};

Vtk ParseVtk(const std::string& content)
{
    Vtk v;
    Cursor k{ content };
    v.ok = k.Line().rfind("# vtk DataFile Version", 0) == 0;
    k.Line();
    const std::string enc = k.Line();
    v.binary = enc == "BINARY";
    v.ok = v.ok && (v.binary || enc == "ASCII") && k.Line() == "DATASET UNSTRUCTURED_GRID";
    auto num = [&](const std::vector<std::string>& w, size_t i) -> long long {
        if (i >= w.size()) { k.bad = true; return 0; }
        return std::atoll(w[i].c_str());
    };
    auto w = k.Words();
    v.ok = v.ok && w.size() == 3 && w[0] == "POINTS" && w[2] == "double";
    v.np = num(w, 1);
    for (long long i = 0; i < v.np && !k.bad; ++i) {
        std::array<double, 3> x;
        for (auto& y : x) y = k.D(v.binary);
        v.pts.push_back(x);
    }
    w = k.Words();
    v.ok = v.ok && w.size() == 3 && w[0] == "CELLS";
    v.nc = num(w, 1);
    v.csize = num(w, 2);
    for (long long i = 0; i < v.nc && !k.bad; ++i) {
        const long long n = k.I(v.binary);
        std::vector<long long> c;
        for (long long j = 0; j < n && !k.bad; ++j) c.push_back(k.I(v.binary));
        v.cells.push_back(c);
    }
    w = k.Words();
    v.ok = v.ok && w.size() == 2 && w[0] == "CELL_TYPES";
    v.nt = num(w, 1);
    for (long long i = 0; i < v.nt && !k.bad; ++i) v.types.push_back(k.I(v.binary));
    k.Blank();
    if (k.p < content.size()) {
        w = k.Words();
        v.ok = v.ok && w.size() == 2 && w[0] == "POINT_DATA";
        v.pd = num(w, 1);
        w = k.Words();
        v.ok = v.ok && w.size() >= 3 && w[0] == "SCALARS" && w[2] == "double" && (w.size() == 3 || w[3] == "1");
        w = k.Words();
        v.ok = v.ok && w.size() == 2 && w[0] == "LOOKUP_TABLE";
        for (long long i = 0; i < v.pd && !k.bad; ++i) v.w.push_back(k.D(v.binary));
        k.Blank();
    }
    v.rest = static_cast<long long>(content.size() - k.p);
    v.ok = v.ok && !k.bad;
    return v;
}

using TriD = std::array<std::array<double, 3>, 4>; // normal and corners
struct StlF {
    bool ok{ false };
    std::vector<TriD> t;
    long long n{ -1 };
};
StlF ParseStl(const std::string& c, bool binary)
{
    StlF r;
    if (binary) {
        if (c.size() < 84) return r;
        std::uint32_t n;
        std::memcpy(&n, c.data() + 80, 4);
        r.n = n;
        r.ok = c.size() == 84 + 50 * static_cast<size_t>(n);
        for (size_t i = 0; i < n && 84 + 50 * (i + 1) <= c.size(); ++i) {
            float f[12];
            std::memcpy(f, c.data() + 84 + 50 * i, 48);
            TriD t;
            for (int k = 0; k < 12; ++k) t[k / 3][k % 3] = f[k];
            r.t.push_back(t);
        }
        return r;
    }
    Cursor k{ c };
    const auto want = [&](std::initializer_list<const char*> l) { for (const char* x : l) if (k.Token() != x) r.ok = false; };
    r.ok = true;
    if (k.Line().rfind("solid", 0) != 0) r.ok = false;
    while (r.ok && !k.bad) {
        const std::string t = k.Token();
        if (t == "endsolid") { k.Line(); break; }
        if (t != "facet") { r.ok = false; break; }
        TriD x;
        want({ "normal" });
        for (auto& y : x[0]) y = k.D(false);
        want({ "outer", "loop" });
        for (int v = 1; v < 4; ++v) {
            want({ "vertex" });
            for (auto& y : x[v]) y = k.D(false);
        }
        want({ "endloop", "endfacet" });
        r.t.push_back(x);
    }
    k.Blank();
    if (k.bad || k.p != c.size()) r.ok = false;
    r.n = static_cast<long long>(r.t.size());
    return r;
}

bool Eq(double a, double b, double tol) { return a == b || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }

template<size_t N>
int Differ(std::vector<std::array<double, N>> a, std::vector<std::array<double, N>> b, double tol)
{
    if (a.size() != b.size()) return -1;
    const auto count = [&] {
        int d = 0;
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t k = 0; k < N; ++k)
                if (!Eq(a[i][k], b[i][k], tol)) { ++d; break; }
        return d;
    };
    if (const int d = count(); d == 0) return 0;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return count();
}

json Raw(const Vtk& v)
{
    json o = { { "ok", v.ok ? 1 : 0 }, { "np", v.np }, { "nc", v.nc }, { "csize", v.csize }, { "nt", v.nt }, { "pd", v.pd }, { "rest", v.rest },
        { "bin", v.binary ? 1 : 0 } };
    o["cells"] = v.cells;
    o["types"] = v.types;
    return o;
}

using MemPoint = std::array<double, 4>;
using MemBox = std::array<double, 6>;

json PointsFile(const fs::path& f, const std::vector<MemPoint>& mem, const Lattice& lat, double unit)
{
    const Vtk v = ParseVtk(Slurp(f));
    json o = Raw(v);
    std::vector<MemPoint> got;
    for (size_t i = 0; i < v.pts.size() && i < v.w.size(); ++i) got.push_back({ v.pts[i][0], v.pts[i][1], v.pts[i][2], v.w[i] });
    o["differ"] = Differ<4>(got, mem, v.binary ? 0.0 : 1e-12);
    std::vector<json> p;
    for (const auto& x : got) p.push_back({ R(lat.L(0, x[0]), 1e5), R(lat.L(1, x[1]), 1e5), R(lat.L(2, x[2]), 1e5), R(x[3] / unit, 1e5) });
    std::sort(p.begin(), p.end());
    o["e"] = p;
    return o;
}

json ElementsFile(const fs::path& f, const std::vector<MemBox>& mem, const Lattice& lat)
{
    const Vtk v = ParseVtk(Slurp(f));
    json o = Raw(v);
    std::vector<MemBox> got;
    std::vector<json> e;
    for (const auto& c : v.cells) {
        json corners = json::array();
        MemBox b{ 1e300, 1e300, 1e300, -1e300, -1e300, -1e300 };
        for (const long long i : c) {
            if (i < 0 || i >= static_cast<long long>(v.pts.size())) { corners.push_back({ NOTINT, NOTINT, NOTINT }); continue; }
            const auto& x = v.pts[static_cast<size_t>(i)];
            json q = json::array();
            for (int a = 0; a < 3; ++a) {
                q.push_back(RI(lat.L(a, x[a]), 1, 1e-6));
                b[a] = std::min(b[a], x[a]);
                b[a + 3] = std::max(b[a + 3], x[a]);
            }
            corners.push_back(q);
        }
        got.push_back(b);
        e.push_back(corners);
    }
    o["differ"] = Differ<6>(got, mem, v.binary ? 0.0 : 1e-12);
    std::sort(e.begin(), e.end());
    o["e"] = e;
    return o;
}

json TriInts(const std::vector<TriD>& t, const Lattice& lat)
{
    json r = json::array();
    for (const auto& x : t) {
        json q = json::array();
        for (int k = 1; k < 4; ++k)
            for (int a = 0; a < 3; ++a) q.push_back(R(lat.L(a, x[k][a]), 1000));
        r.push_back(q);
    }
    return r;
}
// normals too
int StlDiffer(const std::vector<TriD>& got, const std::vector<TriD>& mem, bool binary)
{
    if (got.size() != mem.size()) return -1;
    int d = 0;
    for (size_t i = 0; i < got.size(); ++i)
        for (int k = 0; k < 4; ++k)
            for (int a = 0; a < 3; ++a) {
                const double x = mem[i][k][a], y = got[i][k][a];
                if (!(binary ? y == static_cast<double>(static_cast<float>(x)) : std::abs(x - y) <= 1.2e-7 * std::abs(x))) ++d;
            }
    return d;
}
json StlFile(const fs::path& f, const std::vector<TriD>& mem, const Lattice& lat, bool binary)
{
    const StlF v = ParseStl(Slurp(f), binary);
    return json{ { "ok", v.ok ? 1 : 0 }, { "n", v.n }, { "differ", StlDiffer(v.t, mem, binary) }, { "t", TriInts(v.t, lat) } };
}
json MeshVtk(const fs::path& f, const std::vector<TriD>& mem, const Lattice& lat)
{
    const Vtk v = ParseVtk(Slurp(f));
    json o = Raw(v);
    std::vector<TriD> got;
    for (const auto& c : v.cells) {
        TriD t{};
        if (c.size() == 3)
            for (size_t k = 0; k < 3; ++k)
                if (c[k] >= 0 && c[k] < static_cast<long long>(v.pts.size())) t[k + 1] = v.pts[static_cast<size_t>(c[k])];
        got.push_back(t);
    }
    int d = got.size() == mem.size() ? 0 : -1;
    for (size_t i = 0; d >= 0 && i < got.size(); ++i)
        for (int k = 1; k < 4; ++k)
            for (int a = 0; a < 3; ++a)
                if (!Eq(got[i][k][a], mem[i][k][a], v.binary ? 0.0 : 1e-12)) ++d;
    o["differ"] = d;
    o["t"] = TriInts(got, lat);
    return o;
}
template<class M>
std::vector<TriD> Tris(const M& m)
{
    std::vector<TriD> r;
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i) {
        const auto t = m.template Triangle<WithNormals>(i);
        TriD x;
        for (int a = 0; a < 3; ++a) { x[0][a] = t.Normal[a]; x[1][a] = t.P1[a]; x[2][a] = t.P2[a]; x[3][a] = t.P3[a]; }
        r.push_back(x);
    }
    return r;
}

using GridT = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using F = GridT::ElementFilter;
struct Rebuild { // an element like that of the given view
    std::vector<IntegrationPoint> pts;
    bool trimmed;
};
struct UB {
    static constexpr F Builds = F::untrimmed;
    std::vector<IntegrationPoint> pts;
    std::optional<GridT::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { return GridT::UntrimmedElementType(id, b, pts); }
};
struct TB {
    static constexpr F Builds = F::trimmed;
    std::vector<IntegrationPoint> pts;
    std::optional<GridT::TrimmedElementType> Build(IndexType id, const ElementBounds& b)
    { return GridT::TrimmedElementType(id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, nullptr, 0), pts); }
};

template<class Fn>
int Raises(Fn fn)
{
    try {
        fn();
    } catch (const Exception&) {
        return 1;
    }
    return 0;
}

json FilesIn(const json& s, const fs::path& dir)
{
    const Lattice lat = LatticeFrom(s);
    const double unit = lat.h[0] * lat.h[1] * lat.h[2] / (lat.U * lat.U * lat.U);
    const int threads = s.value("threads", 1);
    omp_set_num_threads(threads);
    json o;
    ModelRun run(s, lat);
    json t = s;
    t["outdir"] = (dir / "out").string();
    fs::create_directories(dir / "out");
    auto p_settings = Settings(t, lat);
    EmbeddedModel model = EmbeddedModel::Create(std::move(p_settings));
    model.CreateVolume(run.mesh.View());
    for (size_t c = 0; c < run.cond_mesh.size(); ++c) model.CreateCondition(run.cond_mesh[c].View(), *run.cond_settings[c]);
    model.WriteModelToFile();
    if (s.value("again", 0)) model.WriteModelToFile(); // replaces the files
    std::vector<std::string> names;
    for (const auto& e : fs::recursive_directory_iterator(dir)) names.push_back(fs::relative(e.path(), dir).string());
    std::sort(names.begin(), names.end());
    o["files"] = names;

    // memory
    std::vector<MemPoint> mp;
    std::vector<MemBox> mb;
    std::vector<json> me, mpi;
    const auto s_settings = Settings(t, lat);
    GridT grid(*s_settings);
    for (const auto& e : model.GetElementViews()) {
        const auto& g = e.GetCellBounds<CoordinateSpace::global>();
        mb.push_back({ g.lower[0], g.lower[1], g.lower[2], g.upper[0], g.upper[1], g.upper[2] });
        me.push_back({ RI(lat.L(0, g.lower[0]), 1, 1e-6), RI(lat.L(1, g.lower[1]), 1, 1e-6), RI(lat.L(2, g.lower[2]), 1, 1e-6) });
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) {
            mp.push_back({ q[0], q[1], q[2], q.Weight() });
            mpi.push_back({ R(lat.L(0, q[0]), 1e5), R(lat.L(1, q[1]), 1e5), R(lat.L(2, q[2]), 1e5), R(q.Weight() / unit, 1e5) });
        }
        const ElementBounds b{ g, e.GetCellBounds<CoordinateSpace::parametric>() };
        if (e.IsTrimmed()) { TB x{ e.GetIntegrationPoints() }; grid.MakeElement(x, e.GetId(), b); }
        else { UB x{ e.GetIntegrationPoints() }; grid.MakeElement(x, e.GetId(), b); }
    }
    std::sort(me.begin(), me.end());
    std::sort(mpi.begin(), mpi.end());
    o["me"] = me;
    o["mp"] = mpi;
    json fv = json::array();
    std::vector<std::vector<TriD>> cond_tris;
    json mc = json::array();
    for (const auto& c : model.GetConditions()) {
        std::vector<TriD> v;
        for (const auto& sg : c.GetSegments())
            for (const auto& x : Tris(sg.GetTriangleMesh())) v.push_back(x);
        cond_tris.push_back(v);
        mc.push_back(TriInts(v, lat));
    }
    o["mc"] = mc;
    const auto mesh_tris = Tris(run.mesh);
    o["mm"] = TriInts(mesh_tris, lat);

    json out = json::array();
    const auto add = [&out](const char* kind, const char* how, int k, json r) {
        r["kind"] = kind;
        r["how"] = how;
        r["k"] = k;
        out.push_back(r);
    };
    const auto cond_file = [&](size_t k) { return "condition_id_" + std::to_string(s["conds"][k]["id"].get<int>()) + ".stl"; };
    if (s.value("write", false)) {
        add("elements", "model", 0, ElementsFile(dir / "out/elements.vtk", mb, lat));
        add("points", "model", 0, PointsFile(dir / "out/integration_points.vtk", mp, lat, unit));
        for (size_t k = 0; k < cond_tris.size(); ++k)
            add("cond", "model", static_cast<int>(k) + 1, StlFile(dir / "out" / cond_file(k), cond_tris[k], lat, true));
        IO::WriteDictionaryToJSON(model.GetModelInfo(), (dir / "info.json").string());
        o["info"] = Slurp(dir / "info.json") == Slurp(dir / "out/model_info.json") ? 1 : 0;
    }
    for (const Enc enc : { Enc::binary, Enc::ascii }) {
        const bool bin = enc == Enc::binary;
        const char* how = bin ? "binary" : "ascii";
        IO::WriteElementsToVTK(grid, (dir / "e.vtk").string(), enc);
        add("elements", how, 0, ElementsFile(dir / "e.vtk", mb, lat));
        IO::WritePointsToVTK(grid, (dir / "p.vtk").string(), enc);
        add("points", how, 0, PointsFile(dir / "p.vtk", mp, lat, unit));
        size_t k = 0;
        for (const auto& c : model.GetConditions()) {
            IO::WriteConditionToSTL(c, (dir / "c.stl").string(), enc);
            add("cond", how, static_cast<int>(k) + 1, StlFile(dir / "c.stl", cond_tris[k], lat, bin));
            ++k;
        }
        IO::WriteMeshToVTK(run.mesh, (dir / "m.vtk").string(), enc);
        add("mesh", how, 0, MeshVtk(dir / "m.vtk", mesh_tris, lat));
        IO::WriteMeshToSTL(run.mesh.View(), (dir / "m.stl").string(), enc);
        add("meshstl", how, 0, StlFile(dir / "m.stl", mesh_tris, lat, bin));
    }
    o["out"] = out;
    // files that cannot be written
    json err = json::array();
    for (const std::string& f : { (dir / "no/such/x").string(), std::string("/dev/full") })
        for (const Enc enc : { Enc::binary, Enc::ascii }) {
            err.push_back(Raises([&] { IO::WriteElementsToVTK(grid, f, enc); }));
            err.push_back(Raises([&] { IO::WritePointsToVTK(grid, f, enc); }));
            err.push_back(Raises([&] { IO::WriteMeshToVTK(run.mesh, f, enc); }));
            err.push_back(Raises([&] { IO::WriteMeshToSTL(run.mesh, f, enc); }));
            for (const auto& c : model.GetConditions()) err.push_back(Raises([&] { IO::WriteConditionToSTL(c, f, enc); }));
            err.push_back(Raises([&] { IO::WriteDictionaryToJSON(model.GetModelInfo(), f); }));
        }
    o["err"] = err;
    omp_set_num_threads(1);
    return o;
}

json Files(const json& s)
{
    const fs::path dir = fs::absolute("files_" + std::to_string(::getpid()) + "_" + std::to_string(s["id"].get<int>()));
    fs::create_directories(dir);
    json o;
    try {
        o = FilesIn(s, dir);
    } catch (...) {
        fs::remove_all(dir);
        throw;
    }
    fs::remove_all(dir);
    return o;
}

// Elements of a grid and their points: not every cell has an element, and not all of them have the same number of points.
json BigGrid(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const auto p_settings = Settings(s, lat);
    GridT grid(*p_settings);
    const GridIndexer ind(*p_settings);
    std::vector<MemPoint> mp;
    std::vector<MemBox> mb;
    for (IndexType i = 0; i < ind.NumberOfElements(); ++i) {
        const IndexType id = i + 1;
        if (id % 7 == 0) continue;
        const auto g = ind.GetBoundingBoxXYZFromIndex(i);
        const auto u = ind.GetBoundingBoxUVWFromIndex(i);
        std::vector<IntegrationPoint> pts;
        for (IndexType q = 0; q <= id % 3; ++q) {
            const double t = 0.25 * static_cast<double>(q + 1), w = static_cast<double>(id % 11 + 1);
            pts.emplace_back(u.lower[0] + t * (u.upper[0] - u.lower[0]), u.lower[1] + 0.5 * (u.upper[1] - u.lower[1]), u.lower[2] + 0.75 * (u.upper[2] - u.lower[2]), w);
        }
        const ElementBounds b{ g, u };
        mb.push_back({ g.lower[0], g.lower[1], g.lower[2], g.upper[0], g.upper[1], g.upper[2] });
        if (id % 2) { TB x{ pts }; grid.MakeElement(x, id, b); }
        else { UB x{ pts }; grid.MakeElement(x, id, b); }
    }
    for (const auto& e : grid.GetElementViews())
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::global>()) mp.push_back({ q[0], q[1], q[2], q.Weight() });
    const fs::path f = "big" + std::to_string(getpid());
    const Enc enc = s["enc"] == "binary" ? Enc::binary : Enc::ascii;
    json o;
    const bool el = s["what"] == "elements";
    if (el) {
        IO::WriteElementsToVTK(grid, f.string(), enc);
        o = ElementsFile(f, mb, lat);
    } else {
        IO::WritePointsToVTK(grid, f.string(), enc);
        o = PointsFile(f, mp, lat, 1.0);
    }
    long long bad = o["rest"].get<long long>() != 0;
    for (const auto& c : o["cells"]) bad += c.size() != (el ? 8u : 1u);
    for (const auto& c : o["types"]) bad += c.get<int>() != (el ? 12 : 1);
    if (!el) { // every point is shown once
        std::set<long long> used;
        for (const auto& c : o["cells"])
            for (const auto& i : c) {
                const long long k = i.get<long long>();
                bad += k < 0 || k >= static_cast<long long>(mp.size()) || !used.insert(k).second;
            }
    } else {
        for (const auto& c : o["e"]) bad += std::set<json>(c.begin(), c.end()).size() != 8;
    }
    json r = { { "ok", o["ok"] }, { "n", o["nc"] }, { "differ", o["differ"] }, { "np", o["np"] }, { "bad", bad }, { "back", 0 }, { "nv", 0 }, { "size", fs::file_size(f) } };
    fs::remove(f);
    return r;
}

// A file larger than the buffer of the writer.
json Big(const json& s)
{
    const std::string what = s["what"];
    if (what == "elements" || what == "points") return BigGrid(s);
    const int k = s["k"].get<int>();
    TriangleMesh m;
    m.Reserve(static_cast<IndexType>(2 * k * k));
    for (int i = 0; i <= k; ++i)
        for (int j = 0; j <= k; ++j) m.AddVertex(PointType{ i * 0.25, j * 0.5, ((i * 31 + j * 17) % 64) * 0.125 });
    const auto id = [k](int i, int j) { return static_cast<IndexType>(i * (k + 1) + j); };
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) {
            m.AddTriangle(Vector3i{ id(i, j), id(i + 1, j), id(i + 1, j + 1) }, Vector3d{ 0, 0, 1 });
            m.AddTriangle(Vector3i{ id(i, j), id(i + 1, j + 1), id(i, j + 1) }, Vector3d{ 0, 0, -1 });
        }
    const fs::path f = "big" + std::to_string(getpid());
    const Enc enc = s["enc"] == "binary" ? Enc::binary : Enc::ascii;
    const auto mem = Tris(m);
    const Lattice lat;
    json o;
    if (what == "vtk") {
        IO::WriteMeshToVTK(m, f.string(), enc);
        o = MeshVtk(f, mem, lat);
    } else {
        IO::WriteMeshToSTL(m, f.string(), enc);
        o = StlFile(f, mem, lat, enc == Enc::binary);
        TriangleMesh r;
        IO::ReadMeshFromSTL(r, f.string());
        const auto back = Tris(r);
        int d = back.size() == mem.size() ? 0 : -1;
        for (size_t i = 0; d >= 0 && i < back.size(); ++i)
            for (int q = 1; q < 4; ++q) if (back[i][q] != mem[i][q]) ++d;
        o["back"] = d;
        o["nv"] = r.NumOfVertices();
        o["np"] = o["n"];
    }
    long long idx = 0, typ = 0;
    if (o.contains("cells"))
        for (const auto& c : o["cells"]) if (c.size() != 3) ++idx;
    if (o.contains("types"))
        for (const auto& c : o["types"]) if (c.get<int>() != 5) ++typ;
    json r = { { "ok", o["ok"] }, { "n", o.contains("n") ? o["n"] : o["nc"] }, { "differ", o["differ"] }, { "np", o["np"] },
        { "bad", idx + typ }, { "back", o.value("back", 0) }, { "nv", o.value("nv", (k + 1) * (k + 1)) }, { "size", fs::file_size(f) } };
    fs::remove(f);
    return r;
}

const Reg r1("bufw", BufW);
const Reg r2("files", Files);
const Reg r3("bigfile", Big);

} // namespace
