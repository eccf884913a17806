// Shared generators for the component harnesses: multipliers, reduced costs, column subsets.
#ifndef VERIF_COMP_HPP
#define VERIF_COMP_HPP
#include "cftx.hpp"

namespace comp {
using gen::Inst;

inline gen::Size size_for(pbt::Src& s) {
    switch (s.below(6)) {
        case 0: return {6, 14};
        case 1: case 2: return {12, 40};
        case 3: return {24, 80};
        case 4: return {40, 150};
        default: return {80, 300};
    }
}

// Multipliers are multiples of 1/64 in most modes, so sums stay exact in single precision.
inline std::vector<double> gen_mults(pbt::Src& s, Inst const& in, std::string* mode = nullptr) {
    std::vector<double> u(static_cast<size_t>(in.nrows), 0.0), best(u.size(), 1e30);
    double              maxc = 0;
    for (int j = 0; j < in.ncols(); ++j) {
        auto const& c = in.cols[static_cast<size_t>(j)];
        maxc          = std::max(maxc, in.costs[static_cast<size_t>(j)]);
        for (int i : c) best[static_cast<size_t>(i)] = std::min(best[static_cast<size_t>(i)], in.costs[static_cast<size_t>(j)] / static_cast<double>(c.size()));
    }
    int m = static_cast<int>(s.below(7));
    static const char* names[] = {"zero", "greedy", "greedy-scaled", "quarters", "sparse", "large", "fractional"};
    if (mode) *mode = names[m];
    int    scale = static_cast<int>(s.range(1, 8));
    double hi    = std::min(maxc, 1000.0);
    for (size_t i = 0; i < u.size(); ++i) {
        double b = best[i] > 1e29 ? 1.0 : best[i];
        switch (m) {
            case 0: break;
            case 1: u[i] = std::floor(b * 64) / 64; break;
            case 2: u[i] = std::floor(b * static_cast<double>(s.range(0, 8)) * scale / 8 * 64) / 64; break;
            case 3: u[i] = std::floor(s.unit() * hi * 4) / 4; break;
            case 4: u[i] = s.chance(1, 3) ? std::floor(s.unit() * hi) : 0; break;
            case 5: u[i] = static_cast<double>(s.range(0, 2000)); break;
            case 6: u[i] = gen::tofloat(s.unit() * b * scale); break;
        }
    }
    return u;
}
inline std::vector<double> red_costs(Inst const& in, std::vector<double> const& u) {
    std::vector<double> r = in.costs;
    for (int j = 0; j < in.ncols(); ++j)
        for (int i : in.cols[static_cast<size_t>(j)]) r[static_cast<size_t>(j)] -= u[static_cast<size_t>(i)];
    return r;
}
// True when every sum of costs and multipliers that can occur is exact in single precision.
inline bool exact_sums(Inst const& in, std::vector<double> const& u) {
    double tot = 0, maxc = 0, q = 64;
    for (double x : u) { if (std::floor(x * q) != x * q) return false; tot += x; }
    double all = 0;
    for (double x : in.costs) { if (std::floor(x * q) != x * q) return false; maxc = std::max(maxc, x); all += x; }
    (void)all;
    return (tot + maxc) * q < (1 << 23) && in.exact;
}
inline std::vector<cft::real_t> reals(std::vector<double> const& v) {
    std::vector<cft::real_t> r;
    for (double x : v) r.push_back(static_cast<cft::real_t>(x));
    return r;
}
inline std::vector<int> ints(std::vector<cft::cidx_t> const& v) {
    std::vector<int> r;
    for (auto x : v) r.push_back(static_cast<int>(x));
    return r;
}
inline std::vector<int> cover_count(Inst const& in, std::vector<int> const& sol) {
    std::vector<int> n(static_cast<size_t>(in.nrows), 0);
    for (int j : sol)
        for (int i : in.cols[static_cast<size_t>(j)]) ++n[static_cast<size_t>(i)];
    return n;
}
inline bool covers_all(Inst const& in, std::vector<int> const& sol) {
    for (int x : cover_count(in, sol))
        if (!x) return false;
    return true;
}
inline std::string set_error(Inst const& in, std::vector<int> const& sol) {
    std::vector<char> seen(in.cols.size(), 0);
    for (int j : sol) {
        if (j < 0 || j >= in.ncols()) return pbt::strf("column %d out of range", j);
        if (seen[static_cast<size_t>(j)]++) return pbt::strf("column %d appears twice", j);
    }
    return "";
}
}  // namespace comp
#endif
