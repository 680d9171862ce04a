// STL files: writers, readers, damaged files (I01).
#include "common.hpp"
#include <cstdio>
#include <sys/resource.h>
#include <unistd.h>
#include "queso/io/io_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"

using namespace queso;
using namespace hv;

namespace {

std::string Slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream b;
    b << in.rdbuf();
    return b.str();
}
void Spill(const std::string& f, const std::string& c)
{
    std::ofstream out(f, std::ios::binary);
    out.write(c.data(), static_cast<std::streamsize>(c.size()));
}
std::string UnHex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
    return r;
}

struct Reader {
    const Lattice& lat;
    std::string file;
    // one read of the given content
    json operator()(const std::string& content) const
    {
        Spill(file, content);
        TriangleMesh m;
        // what a mesh held before must not show
        m.AddVertex(PointType{ 7, 7, 7 });
        m.AddVertex(PointType{ 8, 7, 7 });
        m.AddVertex(PointType{ 7, 8, 7 });
        m.AddTriangle(Vector3i{ 0, 1, 2 }, Vector3d{ 0, 0, 1 });
        try {
            IO::ReadMeshFromSTL(m, file);
        } catch (const std::bad_alloc&) {
            return json{ { "st", "badalloc" } };
        } catch (const std::exception&) {
            return json{ { "st", "err" } };
        }
        int fin = 1, idx = 1, badn = 0;
        json tris = json::array();
        const IndexType n = m.NumOfTriangles();
        if (m.Normals().size() != n || m.TriangleIndices().size() != n) idx = 0;
        for (IndexType t = 0; t < n && idx; ++t) {
            const auto id = m.TriangleIndices()[t];
            json tri = json::array();
            for (int k = 0; k < 3; ++k) {
                if (id[k] >= m.NumOfVertices()) { idx = 0; break; }
                const auto& v = m.Vertices()[id[k]];
                json p = json::array();
                for (int a = 0; a < 3; ++a) {
                    if (!std::isfinite(v[a])) fin = 0;
                    const double l = lat.L(a, v[a]);
                    long long c = NOTINT;
                    if (std::isfinite(l) && std::abs(l) < 1e6) {
                        const double r = std::round(l);
                        if (std::abs(lat.X(a, r) - v[a]) <= 1.2e-7 * std::abs(v[a]) + 1e-12) c = static_cast<long long>(r);
                    }
                    p.push_back(c);
                }
                p.push_back(static_cast<long long>(id[k]));
                tri.push_back(p);
            }
            if (!idx) break;
            const auto tr = m.Triangle<WithNormals>(t);
            double A[3], B[3];
            for (int a = 0; a < 3; ++a) { A[a] = tr.P2[a] - tr.P1[a]; B[a] = tr.P3[a] - tr.P1[a]; }
            const double c[3] = { A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0] };
            const double l = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
            const double big = std::max({ std::abs(A[0]), std::abs(A[1]), std::abs(A[2]), std::abs(B[0]), std::abs(B[1]), std::abs(B[2]) });
            for (int a = 0; a < 3; ++a)
                if (!std::isfinite(tr.Normal[a])) fin = 0;
            // orientation: only where the triangle is well shaped
            if (l > 1e-13 && l > 1e-3 * big * big) {
                const double d = (c[0] * tr.Normal[0] + c[1] * tr.Normal[1] + c[2] * tr.Normal[2]) / l;
                if (!(d > 0.999)) ++badn;
            }
            tris.push_back(tri);
        }
        std::set<std::tuple<double, double, double>> pts;
        for (const auto& v : m.Vertices()) pts.insert({ v[0] + 0.0, v[1] + 0.0, v[2] + 0.0 });
        return json{ { "st", "ok" }, { "fin", fin }, { "idx", idx }, { "badn", badn }, { "t", tris },
            { "nv", static_cast<long long>(m.NumOfVertices()) }, { "np", static_cast<long long>(pts.size()) } };
    }
};

std::vector<std::string> Lines(const std::string& c)
{
    std::vector<std::string> out;
    std::string cur;
    for (const char ch : c) {
        cur.push_back(ch);
        if (ch == '\n') { out.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) out.push_back(cur);
    return out;
}

json Stl(const json& s)
{
    static const bool once = [] {
        rlimit r{ 6ul << 30, 6ul << 30 };
        setrlimit(RLIMIT_AS, &r);
        return true;
    }();
    (void)once;
    const Lattice lat = LatticeFrom(s);
    const std::string base = "io" + std::to_string(getpid());
    const std::string src = s["src"];
    std::string content;
    if (src == "text") content = s["text"].get<std::string>();
    else if (src == "hex") content = UnHex(s["hex"].get<std::string>());
    else {
        TriangleMesh m;
        std::map<std::array<int, 3>, IndexType> ids;
        for (const auto& t : s["tris"]) {
            Vector3i id{};
            Vector3d p[3];
            for (int k = 0; k < 3; ++k) {
                const std::array<int, 3> c{ t[k][0].get<int>(), t[k][1].get<int>(), t[k][2].get<int>() };
                p[k] = lat.P(c[0], c[1], c[2]);
                auto it = ids.find(c);
                if (it == ids.end()) it = ids.emplace(c, m.AddVertex(p[k])).first;
                id[k] = it->second;
            }
            m.AddTriangle(id, TriangleUtilities::Normal(TriangleProxy<WithoutNormals>{ p[0], p[1], p[2] }));
        }
        const auto enc = src == "ascii" ? IO::EncodingType::ascii : IO::EncodingType::binary;
        if (s.value("view", 0)) IO::WriteMeshToSTL(m.View(), base + ".w.stl", enc);
        else IO::WriteMeshToSTL(m, base + ".w.stl", enc);
        content = Slurp(base + ".w.stl");
        std::remove((base + ".w.stl").c_str());
    }
    const Reader read{ lat, base + ".r.stl" };
    // outcomes, one entry per different outcome
    std::map<std::string, std::pair<json, json>> seen;
    std::vector<std::string> order;
    long long count = 0;
    auto note = [&](const char* kind, size_t at, int val, const std::string& c) {
        json r = read(c);
        ++count;
        r["k"] = kind;
        const std::string key = r.dump();
        auto it = seen.find(key);
        if (it == seen.end()) {
            order.push_back(key);
            r["at"] = static_cast<long long>(at);
            r["val"] = val;
            r["cnt"] = 1;
            seen.emplace(key, std::make_pair(r, json()));
        } else it->second.first["cnt"] = it->second.first["cnt"].get<int>() + 1;
    };
    note("none", 0, 0, content);
    for (const auto& d : s.value("dmg", json::array())) {
        const std::string k = d["k"];
        if (k == "trunc") {
            const size_t step = d.value("step", 1u), from = d.value("from", 0u);
            for (size_t i = from; i < content.size(); i += step) note("trunc", i, 0, content.substr(0, i));
        } else if (k == "byte") {
            // at every position (from, step) each of the given values (negative: flipped bit)
            const size_t step = d.value("step", 1u), from = d.value("from", 0u);
            for (size_t i = from; i < content.size(); i += step)
                for (const auto& v : d["vals"]) {
                    std::string c = content;
                    const int x = v.get<int>();
                    c[i] = x < 0 ? static_cast<char>(c[i] ^ (1 << (-x - 1))) : static_cast<char>(x);
                    if (c[i] != content[i]) note("byte", i, x, c);
                }
        } else if (k == "line") {
            const auto l = Lines(content);
            for (size_t i = 0; i < l.size(); ++i) {
                std::string del, dup, junk;
                for (size_t j = 0; j < l.size(); ++j) {
                    if (j != i) del += l[j];
                    dup += l[j];
                    if (j == i) dup += l[j];
                    junk += j == i ? d["junk"].get<std::string>() : l[j];
                }
                note("line", i, 0, del);
                note("line", i, 1, dup);
                note("line", i, 2, junk);
            }
        }
    }
    std::remove((base + ".r.stl").c_str());
    json outs = json::array();
    for (const auto& k : order) outs.push_back(seen[k].first);
    return json{ { "st", "ok" }, { "outs", outs }, { "count", count } };
}

const Reg r1("stl", Stl);

} // namespace
