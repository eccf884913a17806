// One configuration of the library (index and real types from the command line) behind a C function.
#include <cstring>
#ifdef VF_TAGGED
#include <cassert>
#include "tagged.hpp"
#endif
#include "algorithms/Refinement.hpp"
#include "core/Instance.hpp"
#include "variant.hpp"

extern "C" __attribute__((visibility("default"))) void vf_solve(VIn const* in, VOut* out) {
    using namespace cft;
    out->status = 0;
    out->msg[0] = 0;
    out->nsol = out->nmults = 0;
    try {
        Instance inst;
        for (int j = 0; j < in->ncols; ++j) {
            std::vector<ridx_t> c;
            for (int k = in->begs[j]; k < in->begs[j + 1]; ++k) c.push_back(checked_cast<ridx_t>(in->idxs[k]));
            inst.cols.push_back(c);
            inst.costs.push_back(checked_cast<real_t>(in->costs[j]));
        }
        fill_rows_from_cols(inst.cols, checked_cast<ridx_t>(in->nrows), inst.rows);
        Environment env;
        env.seed             = in->seed;
        env.rnd              = prng_t(in->seed);
        env.verbose          = in->verbose;
        env.heur_iters       = in->heur_iters;
        env.epsilon          = checked_cast<real_t>(in->epsilon);
        env.alpha            = checked_cast<real_t>(in->alpha);
        env.beta             = checked_cast<real_t>(in->beta);
        env.abs_subgrad_exit = checked_cast<real_t>(in->abs_exit);
        env.rel_subgrad_exit = checked_cast<real_t>(in->rel_exit);
        env.min_fixing       = checked_cast<real_t>(in->min_fixing);
        env.time_limit       = in->time_limit;
        Solution ws;
        ws.cost = checked_cast<real_t>(in->warm_cost);
        for (int k = 0; k < in->nwarm; ++k) ws.idxs.push_back(checked_cast<cidx_t>(in->warm[k]));
        CftResult r = run(env, inst, ws);
        out->nsol   = static_cast<int>(r.sol.idxs.size());
        for (int k = 0; k < out->nsol && k < out->cap_sol; ++k) out->sol[k] = static_cast<int>(native_cast(r.sol.idxs[static_cast<size_t>(k)]));
        out->nmults = static_cast<int>(r.dual.mults.size());
        for (int k = 0; k < out->nmults && k < out->cap_mults; ++k) out->mults[k] = static_cast<double>(native_cast(r.dual.mults[static_cast<size_t>(k)]));
        out->cost = static_cast<double>(native_cast(r.sol.cost));
        out->lb   = static_cast<double>(native_cast(r.dual.lb));
    } catch (std::exception const& e) {
        out->status = 1;
        strncpy(out->msg, e.what(), sizeof out->msg - 1);
        out->msg[sizeof out->msg - 1] = 0;
    }
}
