// Classification of the cells and the elements a model creates from it (C01), and the same under many thread counts.
#include "common.hpp"
#include "queso/embedded_model.h"
#include "queso/embedding/brep_operator.h"

using namespace queso;
using namespace hv;

namespace {

json ClassString(const std::vector<IntersectionState>& c)
{
    json r = json::array();
    for (auto x : c)
        r.push_back(x == IntersectionState::inside ? "i" : x == IntersectionState::outside ? "o" : x == IntersectionState::trimmed ? "t" : "?");
    return r;
}

json Classify(const json& s)
{
    const Lattice lat = LatticeFrom(s);
    const Body body = Body::From(s);
    auto mesh = MeshOf(body, lat, s);
    const int threads = s.value("threads", 1);
    omp_set_num_threads(threads);
    auto p_settings = Settings(s, lat);
    json o;
    {
        BRepOperator brep(mesh.View());
        o["cls"] = ClassString(*brep.pGetElementClassifications(*p_settings));
    }
    EmbeddedModel model = EmbeddedModel::Create(std::move(p_settings));
    model.CreateVolume(mesh.View());
    std::vector<IndexType> u, t;
    for (const auto& e : model.GetElementViews()) (e.IsTrimmed() ? t : u).push_back(e.GetId());
    std::sort(u.begin(), u.end());
    std::sort(t.begin(), t.end());
    o["untr"] = u;
    o["trim"] = t;
    omp_set_num_threads(1);
    return o;
}
Reg r1("class", Classify);
}
