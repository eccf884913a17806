// Instance sizes and warm starts shared by the harnesses that run full solves.
#ifndef VERIF_SOLVEX_HPP
#define VERIF_SOLVEX_HPP
#include "cftx.hpp"
using gen::Inst;
using gen::Params;

inline gen::Size size_for(pbt::Src& s) {
    gen::Size z;
    switch (s.below(6)) {
        case 0: z = {5, 12}; break;
        case 1: case 2: z = {12, 40}; break;
        case 3: z = {14, 120}; break;
        case 4: z = {40, 120}; break;
        case 5: z = {90, 300}; break;
    }
    return z;
}

// A feasible warm start: random columns completed greedily by index, with optional junk.
inline std::vector<int> warm_start(pbt::Src& s, Inst const& in) {
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0), used(in.cols.size(), 0);
    std::vector<int>  sol;
    auto take = [&](int j) {
        if (used[static_cast<size_t>(j)]) return;
        used[static_cast<size_t>(j)] = 1;
        sol.push_back(j);
        for (int i : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(i)] = 1;
    };
    int kind = static_cast<int>(s.below(4));
    if (kind == 3 && in.known_opt >= 0) {
        for (int j : in.planted) take(j);
        return sol;
    }
    if (kind == 2) {  // everything
        for (int j = 0; j < in.ncols(); ++j) take(j);
        return sol;
    }
    int k = static_cast<int>(s.below(kind == 0 ? 1 : 4));
    for (int n = 0; n < k; ++n) take(static_cast<int>(s.below(in.cols.size())));
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            std::vector<int> cand;
            int              best = -1;
            for (int j = 0; j < in.ncols(); ++j)
                if (std::count(in.cols[static_cast<size_t>(j)].begin(), in.cols[static_cast<size_t>(j)].end(), i)) {
                    cand.push_back(j);
                    if (best < 0 || in.costs[static_cast<size_t>(j)] < in.costs[static_cast<size_t>(best)]) best = j;
                }
            take(s.chance(1, 2) ? best : cand[s.below(cand.size())]);
        }
    s.shuffle(sol);
    return sol;
}
#endif
