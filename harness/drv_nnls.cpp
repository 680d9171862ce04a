// Non-negative least squares (N01).
#include "common.hpp"
#include "queso/solvers/nnls.h"

using namespace queso;
using namespace hv;

namespace {

// A: columns of integers, times 2^sa; b: integers, times 2^sb.
json Solve(const json& s)
{
    const std::size_t m = s["b"].size(), n = s["A"].size();
    const double fa = std::ldexp(1.0, s["sa"].get<int>()), fb = std::ldexp(1.0, s["sb"].get<int>());
    std::vector<double> A, b, x(s["room"].get<std::size_t>(), 7.0);
    for (const auto& c : s["A"])
        for (const auto& v : c) A.push_back(fa * v.get<int>());
    for (const auto& v : s["b"]) b.push_back(fb * v.get<int>());
    const auto A0 = A;
    const auto b0 = b;
    const double r = NNLS::solve(A, b, x);
    json o;
    o["len"] = x.size();
    int neg = 0, pos = 0;
    for (double v : x) {
        neg += !(v >= 0.0);
        pos += v > 0.0;
    }
    o["neg"] = neg;
    o["pos"] = pos;
    o["fit"] = json::array();
    for (std::size_t i = 0; i < m; ++i) {
        double f = 0.0;
        for (std::size_t j = 0; j < n && j < x.size(); ++j) f += A0[j * m + i] * x[j];
        o["fit"].push_back(RI(f / fb, 1.0, 1e-6));
    }
    o["r2"] = RI((r / fb) * (r / fb), 1.0, 1e-5);
    return o;
}

// The weights in thousandths, with the scalings taken out.
json Weights(const json& s)
{
    const std::size_t m = s["b"].size(), n = s["A"].size();
    const double fa = std::ldexp(1.0, s["sa"].get<int>()), fb = std::ldexp(1.0, s["sb"].get<int>());
    std::vector<double> A, b, x;
    for (const auto& c : s["A"])
        for (const auto& v : c) A.push_back(fa * v.get<int>());
    for (const auto& v : s["b"]) b.push_back(fb * v.get<int>());
    const double r = NNLS::solve(A, b, x);
    json o;
    o["x"] = json::array();
    bool big = !(r < 1e3 * fb);
    for (std::size_t j = 0; j < x.size(); ++j) {
        const double v = 1000.0 * x[j] * fa / fb;
        big = big || !(std::abs(v) < 20000.0);
        o["x"].push_back(std::abs(v) < 20000.0 ? static_cast<int>(std::lround(v)) : 0);
    }
    int neg = 0, pos = 0;
    for (double v : x) {
        neg += !(v >= 0.0);
        pos += v > 0.0;
    }
    o["neg"] = neg;
    o["pos"] = pos;
    o["big"] = big;
    o["r"] = big ? 0 : static_cast<int>(std::lround(1000.0 * r / fb));
    return o;
}
Reg r1("nnls", Solve);
Reg r2("nnlsx", Weights);
}
