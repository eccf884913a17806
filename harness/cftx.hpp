// Bridges between the generators' plain data and the library under test.
#ifndef VERIF_CFTX_HPP
#define VERIF_CFTX_HPP
#include "algorithms/Refinement.hpp"
#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "gen.hpp"

namespace cftx {
using namespace cft;

inline Instance build(gen::Inst const& in) {
    Instance inst;
    for (auto const& c : in.cols) {
        std::vector<ridx_t> v;
        for (int i : c) v.push_back(checked_cast<ridx_t>(i));
        inst.cols.push_back(v);
    }
    for (double c : in.costs) inst.costs.push_back(checked_cast<real_t>(c));
    fill_rows_from_cols(inst.cols, checked_cast<ridx_t>(in.nrows), inst.rows);
    return inst;
}

inline void set_env(gen::Params const& p, Environment& env) {
    env.seed             = p.seed;
    env.rnd              = prng_t(p.seed);
    env.verbose          = 0;
    env.epsilon          = checked_cast<real_t>(p.epsilon);
    env.heur_iters       = p.heur_iters;
    env.alpha            = checked_cast<real_t>(p.alpha);
    env.beta             = checked_cast<real_t>(p.beta);
    env.abs_subgrad_exit = checked_cast<real_t>(p.abs_exit);
    env.rel_subgrad_exit = checked_cast<real_t>(p.rel_exit);
    env.min_fixing       = checked_cast<real_t>(p.min_fixing);
    if (p.time_limit >= 0) env.time_limit = p.time_limit;
}

inline std::vector<double> to_doubles(std::vector<real_t> const& v) {
    std::vector<double> r;
    for (real_t x : v) r.push_back(static_cast<double>(native_cast(x)));
    return r;
}
}  // namespace cftx
#endif
