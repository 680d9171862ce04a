// Histories of operations on the element store of the background grid (G02).
#include "common.hpp"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/clipped_triangle_mesh.hpp"
#include "queso/containers/integration_point.hpp"

using namespace queso;
using namespace hv;

namespace {

using GridType = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using F = GridType::ElementFilter;
using Dir = GridType::Direction;
using Untrimmed = GridType::UntrimmedElementType;
using Trimmed = GridType::TrimmedElementType;
constexpr Dir kDirs[6] = { Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward };

// The bounds carry the id, so that an answer shows whose bounds an element has.
ElementBounds Bounds(IndexType id)
{
    const double v = static_cast<double>(id);
    return ElementBounds{ BoundingBoxType{ { v, 2 * v, 3 * v }, { v + 1, 2 * v + 1, 3 * v + 1 } },
        BoundingBoxType{ { -v, v, 5 * v }, { -v + 2, v + 1, 5 * v + 1 } } };
}

struct UBuilder {
    static constexpr F Builds = F::untrimmed;
    bool build{ true };
    std::optional<Untrimmed> Build(IndexType id, const ElementBounds& b)
    {
        if (!build) return std::nullopt;
        return Untrimmed(id, b);
    }
};
struct TBuilder {
    static constexpr F Builds = F::trimmed;
    bool build{ true };
    std::optional<Trimmed> Build(IndexType id, const ElementBounds& b)
    {
        if (!build) return std::nullopt;
        return Trimmed(id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, nullptr, 0));
    }
};

// 1 or 2 if the view is consistently that of element `id`'s own data, negative otherwise
template<class TView>
json Describe(const TView& v)
{
    const IndexType id = v.GetId();
    const auto want = Bounds(id);
    const auto& g = v.template GetCellBounds<CoordinateSpace::global>();
    const auto& p = v.template GetCellBounds<CoordinateSpace::parametric>();
    bool ok = true;
    for (int k = 0; k < 3; ++k)
        ok = ok && g.lower[k] == want.global.lower[k] && g.upper[k] == want.global.upper[k] && p.lower[k] == want.parametric.lower[k]
             && p.upper[k] == want.parametric.upper[k];
    const int kind = v.IsTrimmed() ? 2 : 1;
    return json::array({ ok ? kind : -kind, id });
}

template<F TFilter>
json One(const std::optional<GridType::ElementViewType>& v)
{ return v ? Describe(*v) : json::array({ 0, 0 }); }

struct Store {
    std::unique_ptr<GridType> grid;
    std::map<IndexType, const void*> where; // addresses seen since the lock

    json Ptr(const void* p, const GridType::ElementViewType* v)
    {
        if (!p) return json::array({ 0, 0 });
        json d = Describe(*v);
        const auto it = where.emplace(v->GetId(), p).first;
        if (it->second != p) d[0] = -9; // an element that moved
        return d;
    }
    template<class TElement>
    json PtrOf(TElement* p)
    {
        if (!p) return json::array({ 0, 0 });
        const auto v = p->View();
        json d = Ptr(p, &v);
        return d;
    }
    json Do(const json& op)
    {
        const std::string o = op["op"].get<std::string>();
        GridType& g = *grid;
        if (o == "make") {
            const IndexType id = op["id"].get<IndexType>();
            const bool b = op["b"].get<int>() != 0;
            bool r;
            if (op["k"].get<int>() == 1) { UBuilder x{ b }; r = g.MakeElement(x, id, Bounds(id)); }
            else { TBuilder x{ b }; r = g.MakeElement(x, id, Bounds(id)); }
            return json::array({ r ? 1 : 0 });
        }
        if (o == "lock") { g.LockElements(); return json::array({ 0 }); }
        if (o == "reserve") { g.ReserveElements(3, 2); return json::array({ 0 }); }
        if (o == "move") { grid = std::make_unique<GridType>(std::move(g)); return json::array({ 0 }); }
        const int f = op.value("f", 0);
        if (o == "get") {
            const IndexType id = op["id"].get<IndexType>();
            return f == 0 ? One<F::all>(g.GetElementView(id)) : f == 1 ? One<F::untrimmed>(g.GetElementView<F::untrimmed>(id)) : One<F::trimmed>(g.GetElementView<F::trimmed>(id));
        }
        if (o == "pget") {
            const IndexType id = op["id"].get<IndexType>();
            return f == 1 ? PtrOf(g.pGetElement<F::untrimmed>(id)) : PtrOf(g.pGetElement<F::trimmed>(id));
        }
        if (o == "next") {
            const IndexType id = op["id"].get<IndexType>();
            const Dir d = kDirs[op["d"].get<int>() - 1];
            const auto r = f == 0 ? g.GetNextElementView(id, d) : f == 1 ? g.GetNextElementView<F::untrimmed>(id, d) : g.GetNextElementView<F::trimmed>(id, d);
            json a = One<F::all>(r.element);
            a.push_back(r.next_id);
            a.push_back(r.is_end ? 1 : 0);
            return a;
        }
        if (o == "pnext") {
            const IndexType id = op["id"].get<IndexType>();
            const Dir d = kDirs[op["d"].get<int>() - 1];
            json a;
            if (f == 1) {
                const auto r = g.GetNextElement<F::untrimmed>(id, d);
                a = PtrOf(r.p_element);
                a.push_back(r.next_id);
                a.push_back(r.is_end ? 1 : 0);
            } else {
                const auto r = g.GetNextElement<F::trimmed>(id, d);
                a = PtrOf(r.p_element);
                a.push_back(r.next_id);
                a.push_back(r.is_end ? 1 : 0);
            }
            return a;
        }
        if (o == "isend") return json::array({ g.IsEnd(op["id"].get<IndexType>(), kDirs[op["d"].get<int>() - 1]) ? 1 : 0 });
        if (o == "count") return json::array({ g.NumberOfActiveElements(), g.NumberOfUntrimmedElements(), g.NumberOfTrimmedElements() });
        if (o == "list") {
            json a = json::array();
            const auto add = [&](const auto& v) {
                const json d = Describe(v);
                a.push_back(10 * d[1].get<int>() + d[0].get<int>());
            };
            if (f == 0) for (const auto& v : g.GetElementViews()) add(v);
            if (f == 1) for (const auto& v : g.GetElementViews<F::untrimmed>()) add(v);
            if (f == 2) for (const auto& v : g.GetElementViews<F::trimmed>()) add(v);
            // the raw containers show the same elements
            json b = json::array();
            const GridType& cg = g;
            if (f != 2) for (const auto& e : cg.GetElements<F::untrimmed>()) b.push_back(10 * e.View().GetId() + 1);
            if (f != 1) for (const auto& e : cg.GetElements<F::trimmed>()) b.push_back(10 * e.View().GetId() + 2);
            json c = json::array();
            if (f != 2) for (auto& e : g.GetElements<F::untrimmed>()) c.push_back(10 * e.View().GetId() + 1);
            if (f != 1) for (auto& e : g.GetElements<F::trimmed>()) c.push_back(10 * e.View().GetId() + 2);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            std::sort(c.begin(), c.end());
            if (a != b || a != c) return json::array({ -5 });
            return a;
        }
        throw std::logic_error("bad op " + o);
    }
};

std::unique_ptr<GridType> Make(const json& s)
{
    json t = s;
    t["p"] = { 1, 1, 1 };
    t["U"] = 1;
    const auto p = Settings(t, LatticeFrom(t));
    return std::make_unique<GridType>(*p);
}

json Hist(const json& s)
{
    Store st{ Make(s), {} };
    json o, r = json::array();
    for (const auto& op : s["ops"]) {
        try {
            r.push_back(st.Do(op));
        } catch (const Exception& e) {
            r.push_back(json::array({ -1 }));
        }
    }
    o["r"] = r;
    return o;
}

// Several threads add elements at once.
json Race(const json& s)
{
    Store st{ Make(s), {} };
    const int T = static_cast<int>(s["threads"].size());
    std::vector<std::vector<int>> res(static_cast<size_t>(T));
    omp_set_dynamic(0);
#pragma omp parallel num_threads(T)
    {
        const auto t = static_cast<size_t>(omp_get_thread_num());
#pragma omp barrier
        for (const auto& a : s["threads"][t]) {
            int r = -1;
            const IndexType id = a[0].get<IndexType>();
            try {
                if (a[1].get<int>() == 1) { UBuilder x{}; r = st.grid->MakeElement(x, id, Bounds(id)) ? 1 : 0; }
                else { TBuilder x{}; r = st.grid->MakeElement(x, id, Bounds(id)) ? 1 : 0; }
            } catch (const Exception&) {
                r = -1;
            }
            res[t].push_back(r);
        }
    }
    st.grid->LockElements();
    json o;
    o["r"] = res;
    o["list"] = st.Do({ { "op", "list" }, { "f", 0 } });
    o["get"] = json::array();
    const Vector3i n = I3(s["n"]);
    for (IndexType id = 1; id <= n[0] * n[1] * n[2]; ++id) o["get"].push_back(st.Do({ { "op", "get" }, { "id", id }, { "f", 0 } }));
    return o;
}

Reg r1("store", Hist);
Reg r2("storerace", Race);
} // namespace
