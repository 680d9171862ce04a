// Histories of dictionaries (D01): settings and model information with their lists.
#include "common.hpp"
#include "keys.hpp"
using namespace queso;
using namespace hv;
namespace {

using Dict = Dictionary<key::MainValuesTypeTag>;
using Access = DictionaryStringAccess<Dict>;

// pools of values: index 1.. ; the same numbers where a conversion is permitted (see DictStore.tla)
const std::vector<IndexType> kI{ 0, 1, 7, 100, 1000000, 5000000000 };
const std::vector<double> kD{ 0.0, 1.0, 7.0, 100.0, 1000000.0, 5e9, -3.0, 0.1, 1e-300, -1.5e10, 1e-10, 1e-3, 0.333333333333, -4294967296.0, -8e9 };
const std::vector<bool> kB{ false, true };
const std::vector<std::string> kT{ "queso_output", "", "DirichletCondition", "a \"quoted\" \\ text", "\xC3\xA4\xC3\xB6", "Not Set." };
const std::vector<Vector3i> kV{ { 1, 2, 3 }, { 0, 0, 0 }, { 4, 4, 9 } };
const std::vector<PointType> kP{ { 1, 2, 3 }, { 0, 0, 0 }, { 4, 4, 9 }, { -1.5, 0.25, 1e6 }, { 1e-12, -1e-12, 0.1 } };
const std::vector<IntegrationMethod> kM{ IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2,
    IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 };
const std::vector<GridType> kG{ GridType::b_spline_grid, GridType::hexahedral_fe_grid };

template<class T> const std::vector<T>& Pool();
template<> const std::vector<IndexType>& Pool() { return kI; }
template<> const std::vector<double>& Pool() { return kD; }
template<> const std::vector<bool>& Pool() { return kB; }
template<> const std::vector<std::string>& Pool() { return kT; }
template<> const std::vector<Vector3i>& Pool() { return kV; }
template<> const std::vector<PointType>& Pool() { return kP; }
template<> const std::vector<IntegrationMethod>& Pool() { return kM; }
template<> const std::vector<GridType>& Pool() { return kG; }
template<class T>
int Find(const T& v)
{
    const auto& p = Pool<T>();
    for (size_t i = 0; i < p.size(); ++i)
        if (p[i] == v) return static_cast<int>(i + 1);
    return -9;
}

template<class F>
auto WithType(char t, F&& f)
{
    switch (t) {
    case 'I': return f(IndexType{});
    case 'D': return f(double{});
    case 'B': return f(bool{});
    case 'T': return f(std::string{});
    case 'V': return f(Vector3i{});
    case 'P': return f(PointType{});
    case 'M': return f(IntegrationMethod{});
    case 'G': return f(GridType{});
    }
    throw std::runtime_error("bad scenario: type");
}

template<class TKey, class TVal>
void EnumSet(Dict& d, const TKey& k, char t, size_t i)
{
    if constexpr (std::is_same_v<TVal, IndexType>) {
        if (t == 'u') { if (i < 5) d.SetValue(k, static_cast<unsigned>(kI.at(i))); else d.SetValue(k, static_cast<unsigned long long>(kI.at(i))); return; }
    }
    const TVal v = Pool<TVal>().at(i);
    d.SetValue(k, v);
}
template<class TVal, int REQ, class TKey>
json EnumGet(const Dict& d, const TKey& k)
{
    if constexpr (REQ == 1) return json::array({ 1, Find<TVal>(d.GetRequiredValue<TVal>(k)) });
    else {
        const auto r = d.TryGetValue<TVal>(k);
        if (!r) return json::array({ 2 });
        return json::array({ 1, Find<TVal>(r->get()) });
    }
}

struct World {
    std::map<std::string, Unique<Dict>> roots;
    static std::string ListKey(const std::string& root) { return root == "S" ? "conditions_settings_list" : "conditions_infos_list"; }
    Dict& At(const std::string& path) // a path is given only if it exists
    {
        const size_t hash = path.find('#');
        if (hash != std::string::npos) {
            const std::string root = path.substr(0, hash);
            return *Access::GetList(*roots.at(root), ListKey(root)).at(std::stoul(path.substr(hash + 1)) - 1);
        }
        std::stringstream ss(path);
        std::string part;
        std::getline(ss, part, '/');
        Dict* p = roots.at(part).get();
        while (std::getline(ss, part, '/')) p = &Access::GetSubDictionary(*p, part);
        return *p;
    }
};

const std::map<std::string, std::vector<std::pair<std::string, std::string>>> kSubs{
    { "Settings", { { "general_settings", "GeneralSettings" }, { "background_grid_settings", "BackgroundGridSettings" },
                      { "trimmed_quadrature_rule_settings", "TrimmedQuadratureRuleSettings" }, { "non_trimmed_quadrature_rule_settings", "NonTrimmedQuadratureRuleSettings" } } },
    { "ModelInfo", { { "embedded_geometry_info", "EmbeddedGeometryInfo" }, { "quadrature_info", "QuadratureInfo" }, { "background_grid_info", "BackgroundGridInfo" },
                       { "elapsed_time_info", "ElapsedTimeInfo" } } },
    { "ElapsedTimeInfo", { { "volume_time_info", "VolumeTimeInfo" }, { "conditions_time_info", "ConditionsTimeInfo" }, { "write_files_time_info", "WriteFilesTimeInfo" } } }
};

using Shown = std::set<std::tuple<std::string, std::string, int>>;
void Show(Shown& out, const std::string& path, const std::string& kind, Dict& d)
{
#define X(K, k, T, R) \
    if (kind == #K) { \
        bool set = false; \
        try { set = Access::IsSet(d, #k); } catch (const std::exception&) { out.insert({ path, #k, -7 }); } \
        if (set) { \
            try { out.insert({ path, #k, Find<T>(Access::GetValue<T>(d, #k)) }); } catch (const std::exception&) { out.insert({ path, #k, -8 }); } \
        } \
    }
    QKEYS(X)
#undef X
    auto it = kSubs.find(kind);
    if (it == kSubs.end()) return;
    for (const auto& [k, sub] : it->second) {
        Dict* p = nullptr;
        try { p = &Access::GetSubDictionary(d, k); } catch (const std::exception&) { continue; }
        Show(out, path + "/" + k, sub, *p);
    }
}
Shown ShowAll(World& w)
{
    Shown out;
    for (auto& [r, p] : w.roots) {
        Show(out, r, r == "S" ? "Settings" : "ModelInfo", *p);
        auto& list = Access::GetList(*p, World::ListKey(r));
        for (size_t i = 0; i < list.size(); ++i)
            if (list[i]) Show(out, r + "#" + std::to_string(i + 1), r == "S" ? "ConditionSettings" : "ConditionInfo", *list[i]);
    }
    return out;
}

json Do(World& w, const json& op)
{
    const std::string what = op["op"], p = op["n"], k = op["k"], a = op["a"], e = op["e"];
    if (what == "append") {
        auto& list = Access::GetList(*w.roots.at(p), World::ListKey(p));
        if (op["b"].get<int>() == 1) list.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create(p == "S" ? "ConditionSettings" : "ConditionInfo"));
        else list.push_back(nullptr);
        return json::array({ 0 });
    }
    if (what == "move") {
        auto q = MakeUnique<Dict>(std::move(*w.roots.at(p)));
        w.roots.at(p) = std::move(q);
        return json::array({ 0 });
    }
    Dict& d = w.At(p);
    if (what == "check") { d.CheckRequired(); return json::array({ 0 }); }
    if (what == "has") return json::array({ 1, Access::Has(d, k) ? 1 : 0 });
    if (what == "isset") {
        if (a == "s") return json::array({ 1, Access::IsSet(d, k) ? 1 : 0 });
#define X(K, kk, T, R) if (e == #K && k == #kk) return json::array({ 1, d.IsSet(K::kk) ? 1 : 0 });
        QKEYS(X)
#undef X
    }
    if (what == "set") {
        const size_t i = op["i"].get<size_t>() - 1;
        const char t = op["t"].get<std::string>()[0];
        if (a == "s") {
            if (t == 'n') { if (i == 0) Access::SetValue(d, k, -3); else if (i == 1) Access::SetValue(d, k, -4294967296L); else Access::SetValue(d, k, -8000000000LL); }
            else if (t == 'i') {
                if (i == 1) Access::SetValue(d, k, static_cast<short>(kI.at(i)));
                else if (i % 2 == 0) Access::SetValue(d, k, static_cast<int>(kI.at(i)));
                else Access::SetValue(d, k, static_cast<long long>(kI.at(i)));
            }
            else if (t == 'u') {
                if (i == 2) Access::SetValue(d, k, static_cast<unsigned short>(kI.at(i)));
                else if (i < 5) Access::SetValue(d, k, static_cast<unsigned>(kI.at(i)));
                else Access::SetValue(d, k, static_cast<unsigned long long>(kI.at(i)));
            }
            else WithType(t, [&](auto x) { using T = decltype(x); const T v = Pool<T>().at(i); Access::SetValue(d, k, v); });
            return json::array({ 0 });
        }
#define X(K, kk, T, R) if (e == #K && k == #kk) { EnumSet<std::decay_t<decltype(K::kk)>, T>(d, K::kk, t, i); return json::array({ 0 }); }
        QKEYS(X)
#undef X
    }
    if (what == "get") {
        if (a == "s") {
            const char t = op["t"].get<std::string>()[0];
            return WithType(t, [&](auto x) { using T = decltype(x); return json::array({ 1, Find<T>(Access::GetValue<T>(d, k)) }); });
        }
#define X(K, kk, T, R) if (e == #K && k == #kk) return EnumGet<T, R>(d, K::kk);
        QKEYS(X)
#undef X
    }
    if (what == "sub") {
        if (a == "s") { Access::GetSubDictionary(d, k); return json::array({ 0 }); }
        const Dict& c = d;
#define X(K, kk, F) if (e == #K && k == #kk) { if (&c[K::kk] != &d[K::kk]) return json::array({ -5 }); return json::array({ 0 }); }
        QSUBS(X)
#undef X
    }
    if (what == "len") {
        if (a == "s") return json::array({ 1, Access::GetList(d, k).size() });
        const Dict& c = d;
        if (e == "MainSettings") return json::array({ 1, c.GetList(MainSettings::conditions_settings_list).size() });
        return json::array({ 1, c.GetList(MainInfo::conditions_infos_list).size() });
    }
    if (what == "replace") {
        Unique<Dict> q;
        if (op["b"].get<int>() == 1) {
            // a new dictionary of the kind that belongs under this key
#define X(K, kk, F) \
            if (k == #kk) { \
                if (std::string(#F) == "E") { auto f = DictionaryFactory<key::MainValuesTypeTag>::Create("ModelInfo"); \
                    q = MakeUnique<Dict>(std::move(Access::GetSubDictionary(Access::GetSubDictionary(*f, "elapsed_time_info"), k))); } \
                else { auto f = DictionaryFactory<key::MainValuesTypeTag>::Create(#F); q = MakeUnique<Dict>(std::move(Access::GetSubDictionary(*f, k))); } \
            }
            QSUBS(X)
#undef X
        }
        if (a == "s") { Access::SetSubDictionary(d, k, std::move(q)); return json::array({ 0 }); }
#define X(K, kk, F) if (e == #K && k == #kk) { d.SetSubDictionary(K::kk, std::move(q)); return json::array({ 0 }); }
        QSUBS(X)
#undef X
    }
    throw json::other_error::create(501, "bad scenario: operation", nullptr);
}

json ShownJson(const Shown& s)
{
    json j = json::array();
    for (const auto& [p, k, v] : s) j.push_back(json::array({ p, k, v }));
    return j;
}

json DictHistory(const json& s)
{
    World w;
    w.roots["S"] = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    w.roots["M"] = DictionaryFactory<key::MainValuesTypeTag>::Create("ModelInfo");
    json o;
    Shown before = ShowAll(w);
    o["init"] = ShownJson(before);
    o["r"] = json::array();
    for (const auto& op : s["ops"]) {
        json r;
        try { r["a"] = Do(w, op); }
        catch (const json::exception&) { throw; }
        catch (const std::exception&) { r["a"] = json::array({ -1 }); }
        Shown after = ShowAll(w), add, del;
        std::set_difference(after.begin(), after.end(), before.begin(), before.end(), std::inserter(add, add.end()));
        std::set_difference(before.begin(), before.end(), after.begin(), after.end(), std::inserter(del, del.end()));
        r["add"] = ShownJson(add);
        r["del"] = ShownJson(del);
        before = std::move(after);
        o["r"].push_back(r);
    }
    int unknown = 0;
    for (const std::string n : { "settings", "", "Setting", "MainSettings" }) {
        try { auto p = DictionaryFactory<key::MainValuesTypeTag>::Create(n); unknown += 1; } catch (const std::exception&) { }
    }
    o["unknown"] = unknown;
    return o;
}
const bool reg = [] { Registry()["dict"] = DictHistory; return true; }();

} // namespace
