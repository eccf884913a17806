// Solution quality over populations (C09). One case is a population of instances of one kind.
#include "comp.hpp"
#include "utils/limits.hpp"
using namespace cftx;
using gen::Inst;

// Plain cost-per-new-row greedy, independent of the code under test.
static double simple_greedy(Inst const& in) {
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0);
    int    left = in.nrows;
    double tot = 0;
    while (left > 0) {
        double bs = 1e300;
        size_t bj = 0;
        for (size_t j = 0; j < in.cols.size(); ++j) {
            int mu = 0;
            for (int i : in.cols[j]) mu += !cov[static_cast<size_t>(i)];
            if (mu && in.costs[j] / mu < bs) { bs = in.costs[j] / mu; bj = j; }
        }
        tot += in.costs[bj];
        for (int i : in.cols[bj]) if (!cov[static_cast<size_t>(i)]) { cov[static_cast<size_t>(i)] = 1; --left; }
    }
    return tot;
}

struct Pop {
    const char* name;
    gen::Size   z;
    int         fam;
    int         n;
    // calibrated limits (worst over >1000 populations of the unchanged code, with margin)
    double max_gap, min_optimal, max_lbgap;
};

static void population(pbt::Src& s, pbt::Ctx& c, Pop const& P, bool defaults_only) {
    double gap = 0, lbgap = 0, ggap = 0;
    int    optimal = 0, n = 0, lbn = 0, worse = 0;
    uint64_t base = s.bits64();
    for (int k = 0; k < P.n; ++k) {
        pbt::Src is(pbt::mix64(base + static_cast<uint64_t>(k) * 0x9e3779b97f4a7c15ULL), nullptr);
        Inst     in = gen::gen_inst(is, P.z, P.fam, 11);  // the limits are calibrated without near ties
        if (!gen::has_exact(in)) throw pbt::Discard{};
        double opt = gen::exact_opt(in);
        if (opt <= 0) continue;
        double tot = 0;
        for (double x : in.costs) tot = std::max(tot, x);
        if (tot > 1e6) continue;  // big-M costs
        gen::Params p;
        p.seed    = static_cast<uint64_t>(k);
        // costs differing by less than epsilon are not told apart: scale it with the costs
        double minc = 1e300;
        for (double x : in.costs) if (x > 0) minc = std::min(minc, x);
        if (!defaults_only) { p.epsilon = 1e-4; }
        p.epsilon = std::min(p.epsilon, minc * 0.1);
        p.abs_exit = 0;
        Environment env;
        set_env(p, env);
        Instance inst = build(in);
        auto     r    = run(env, inst);
        double   cost = static_cast<double>(r.sol.cost), lb = static_cast<double>(r.dual.lb);
        ++n;
        gap += std::min(0.25, cost / opt - 1);
        optimal += cost <= opt * (1 + 1e-5) + 1e-6;
        double g = simple_greedy(in);
        ggap += std::min(0.25, g / opt - 1);
        worse += cost > g * (1 + 1e-5);
        if (lb > -1e30) { lbgap += std::max(0.0, std::min(1.0, 1 - lb / opt)); ++lbn; }
    }
    if (n < P.n / 3) throw pbt::Discard{};
    gap /= n; ggap /= n; lbgap /= std::max(1, lbn);
    double frac = static_cast<double>(optimal) / n;
    c.units = n;
    c.describe(pbt::strf("population %s of %d: mean gap %.5f, optimal %.4f, mean bound gap %.4f (%d bounds), greedy gap %.4f, worse than greedy %d", P.name, n, gap, frac, lbgap, lbn, ggap, worse));
    c.num(std::string("sum of mean gaps, ") + P.name, gap);
    c.num(std::string("populations, ") + P.name, 1);
    c.num(std::string("sum of optimal shares, ") + P.name, frac);
    c.num(std::string("sum of bound gaps, ") + P.name, lbgap);
    c.num(std::string("sum of greedy gaps, ") + P.name, ggap);
    if (getenv("QDUMP")) { FILE* f = fopen(getenv("QDUMP"), "a"); fprintf(f, "%s %d %.6f %.6f %.6f %.6f %d\n", P.name, n, gap, frac, lbgap, ggap, worse); fclose(f); }
    if (getenv("QNOFAIL")) { c.nontrivial(); return; }
    if (gap > P.max_gap) c.fail(pbt::strf("mean gap %.5f over %d instances (%s), limit %.5f", gap, n, P.name, P.max_gap));
    if (frac < P.min_optimal) c.fail(pbt::strf("optimum found on %.4f of %d instances (%s), limit %.4f", frac, n, P.name, P.min_optimal));
    if (lbn > n / 4 && lbgap > P.max_lbgap) c.fail(pbt::strf("mean bound gap %.4f over %d instances (%s), limit %.4f", lbgap, lbn, P.name, P.max_lbgap));
    if (ggap > 0.02 && gap > ggap / 2) c.fail(pbt::strf("mean gap %.5f (%s), but plain greedy has %.5f", gap, P.name, ggap));
    c.nontrivial(ggap > 0);
}
// limits: worst of 160 populations of the unchanged code plus about as much again as their spread
PBT_PROP(cycle) { population(s, c, {"cycle 14x40", {14, 40}, 2, 3000, 0.004, 0.978, 0.122}, false); }
PBT_PROP(hitting) { population(s, c, {"hitting 14x40", {14, 40}, 3, 3000, 0.0025, 0.982, 0.058}, false); }
PBT_PROP(hard) { population(s, c, {"hard 14x80", {14, 80}, 11, 2000, 0.0065, 0.875, 0.070}, false); }
PBT_PROP(rail) { population(s, c, {"rail 14x100", {14, 100}, 5, 3000, 0.009, 0.990, 0.245}, true); }
PBT_PROP(planted) { population(s, c, {"planted 80x300", {80, 300}, 4, 1500, 0.006, 0.925, 0.065}, false); }
PBT_PROP(plantedbig) { population(s, c, {"planted 200x1500", {200, 1500}, 4, 400, 0.007, 0.86, 0.08}, false); }
PBT_MAIN
