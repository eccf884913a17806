// Time limits on a virtual clock that advances with the arithmetic the solver performs (C06).
#include <chrono>
#include <cstdint>

#include "counted.hpp"
namespace vclock {
uint64_t       ops  = 0;
static int64_t tick = 1000;  // nanoseconds per operation
static int64_t skew = 0;     // arbitrary origin
static int64_t now_ns() { return skew + static_cast<int64_t>(ops) * tick; }
}  // namespace vclock
// Replaces the clocks of the C++ library within this program.
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vclock::now_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vclock::now_ns())); }
}}}  // namespace std::chrono::_V2

#define CFT_CIDX_TYPE ext::Cnt<int32_t, 1>
#define CFT_RIDX_TYPE ext::Cnt<int16_t, 2>
#define CFT_REAL_TYPE ext::Cnt<float, 3>
#include "cftx.hpp"
using namespace cftx;
using gen::Inst;
using gen::Params;

struct Run {
    std::vector<int>    sol;
    std::vector<double> mults;
    double              cost, lb;
    uint64_t            ops;  // length of the solve
};
static Run solve(Inst const& in, Params const& p, std::vector<int> const& warm, double limit_s, uint64_t spent) {
    Instance inst = build(in);
    Environment env;
    set_env(p, env);
    env.time_limit = limit_s;
    vclock::ops += spent;  // time already used when the solve starts
    Solution ws;
    ws.cost = checked_cast<real_t>(gen::cost_of(in, warm));
    for (int j : warm) ws.idxs.push_back(checked_cast<cidx_t>(j));
    uint64_t  t0 = vclock::ops;
    CftResult r  = run(env, inst, ws);
    Run       o;
    o.ops  = vclock::ops - t0;
    for (auto j : r.sol.idxs) o.sol.push_back(static_cast<int>(native_cast(j)));
    o.mults = to_doubles(r.dual.mults);
    o.cost  = static_cast<double>(native_cast(r.sol.cost));
    o.lb    = static_cast<double>(native_cast(r.dual.lb));
    return o;
}

// The most that may follow the deadline: the rest of one pricing interval of the subgradient, or one
// heuristic iteration, one column fixing and one greedy. The factor leaves a margin of a half over the
// largest value met in 100000 generated cases.
static double allowance(Inst const& in) {
    double rows = in.nrows, cols = in.ncols(), nnz = static_cast<double>(in.nnz());
    double P    = std::max(10.0, std::min(1000.0, rows / 3)) + 2;
    return 10 * P * (nnz + cols * (1 + std::log2(1 + cols)) + rows) + 10 * rows * rows;
}

PBT_PROP(limits) {
    static const int szr[] = {8, 20, 40, 60, 90}, szc[] = {40, 100, 150, 200, 300};
    size_t z  = s.below(5);
    int    fam = s.chance(1, 2) ? static_cast<int>(s.pick({11, 2, 3, 0, 1})) : -1;
    Inst   in = gen::gen_inst(s, {szr[z], szc[z]}, fam);
    Params p  = gen::gen_params(s, false, 60);
    if (s.chance(1, 2)) p.heur_iters = static_cast<uint64_t>(s.pick({250, 400, 1000}));
    if (s.chance(1, 2)) { p.abs_exit = 0; p.rel_exit = 0; }
    std::vector<int> warm;
    if (s.chance(1, 6)) for (int j = 0; j < in.ncols(); ++j) warm.push_back(j);
    vclock::tick = static_cast<int64_t>(s.pick({1, 50, 1000, 1000, 37000, 1000000}));
    vclock::skew = static_cast<int64_t>(s.pick({0, 1, 5})) * 1000000007LL * 1000;
    vclock::ops  = s.chance(1, 2) ? 0 : s.below(1000000);
    c.describe(gen::describe(p) + pbt::strf(" %lld ns per operation, ", static_cast<long long>(vclock::tick)) + gen::describe(in));
    c.cls("family " + in.fam);
    Run    full = solve(in, p, warm, limits<double>::inf(), 0);
    double tick = static_cast<double>(vclock::tick) * 1e-9, A = allowance(in);
    c.num("max operations of a full solve", static_cast<double>(full.ops));
    int  n = 1 + static_cast<int>(s.below(4)), cut = 0;
    for (int k = 0; k < n; ++k) {
        double T = static_cast<double>(full.ops), f = s.unit();
        double L;
        switch (s.below(8)) {
            case 0: L = 0; break;
            case 1: L = T * 1.0001 + 10; break;
            case 2: L = T * (1.5 + 10 * f); break;
            case 3: L = T * f * f * f; break;
            default: L = T * f; break;
        }
        double   limit = L * tick;
        uint64_t spent = s.chance(1, 6) ? static_cast<uint64_t>(L * s.pick({0.5, 1.0, 2.0})) : 0;
        Run      r     = solve(in, p, warm, limit, spent);
        auto     e     = gen::cover_error(in, r.sol);
        c.check(e.empty(), "limit %g s: %s", limit, e.c_str());
        double cost = gen::cost_of(in, r.sol);
        c.check(std::fabs(r.cost - cost) <= gen::cost_tol(in, cost), "limit %g s: cost %.9g instead of %.9g", limit, r.cost, cost);
        double end = static_cast<double>(r.ops) + static_cast<double>(spent), over = end - std::max(L, static_cast<double>(spent));
        if (end * tick < limit - 3e-6) {
            c.cls("limit not reached");
            c.check(r.ops == full.ops && r.sol == full.sol && r.cost == full.cost && r.lb == full.lb && r.mults == full.mults,
                    "limit %g s, returned after %g s (%.0f of %.0f operations) with another result than without a limit", limit,
                    end * tick, static_cast<double>(r.ops), static_cast<double>(full.ops));
        } else {
            over -= 3e-6 / tick;  // resolution of the timer
            c.cls(r.ops < full.ops ? "cut short" : "ended after the limit by itself");
            if (r.ops < full.ops) ++cut;
            c.num("max overshoot / allowance", over / A);
            c.check(over <= A, "limit %g s: returned after %g s, %.0f operations beyond the limit (%.0f operations without limit)",
                    limit, end * tick, over, static_cast<double>(full.ops));
        }
        if (static_cast<double>(full.ops) > L + 3 * A) c.cls("limit could be overrun");
    }
    if (cut && static_cast<double>(full.ops) > 3 * A) c.nontrivial();
}
PBT_MAIN
