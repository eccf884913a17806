// Full solves against exact oracles (C01-C04) and direct three-phase calls (C10).
#include "solvex.hpp"
#include "algorithms/ThreePhase.hpp"
using namespace cftx;

struct Case {
    Inst             in;
    Params           p;
    std::vector<int> warm;
};
static Case make_case(pbt::Src& s, pbt::Ctx& c, bool want_warm, bool need_opt) {
    Case k;
    auto z = size_for(s);
    int  fam = -1;
    if (need_opt && z.max_rows > 14) { fam = 4; }
    k.in = gen::gen_inst(s, z, fam);
    if (need_opt && !gen::has_exact(k.in)) throw pbt::Discard{};
    k.p = gen::gen_params(s, true, k.in.nrows > 20 ? 20 : 60);
    if (want_warm) k.warm = warm_start(s, k.in);
    c.describe(gen::describe(k.p) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    c.cls("costs " + k.in.cmode);
    if (k.p.time_limit >= 0) c.cls("with time limit");
    return k;
}
static CftResult solve(Case const& k, Instance const& inst) {
    Environment env;
    set_env(k.p, env);
    Solution ws;
    ws.cost = 0;
    for (int j : k.warm) ws.idxs.push_back(checked_cast<cidx_t>(j));
    ws.cost = checked_cast<real_t>(gen::cost_of(k.in, k.warm));
    if (k.p.time_limit >= 0) env.timer.restart();
    return k.warm.empty() ? run(env, inst) : run(env, inst, ws);
}

PBT_PROP(cover) {  // C01
    Case        k    = make_case(s, c, s.chance(1, 4), false);
    Instance    inst = build(k.in);
    CftResult   r    = solve(k, inst);
    std::string e    = gen::cover_error(k.in, r.sol.idxs);
    if (!e.empty()) c.fail("not a valid cover: " + e + " solution " + gen::show(r.sol.idxs));
    c.nontrivial(k.in.nrows >= 3 && r.sol.idxs.size() >= 2);
    if (r.sol.idxs.size() >= 2) c.cls("multi-column solution");
}

// Instances at the edge of the domain: no rows at all, columns that cover nothing, and one that has no cover, which
// must end too (with an exception).
PBT_PROP(degenerate) {  // C01
    int kind = static_cast<int>(s.below(4));
    Case k;
    if (kind == 0) {
        k.in.nrows = 0;
        k.in.fam   = "no rows";
        int n      = static_cast<int>(s.skewed(0, 6));
        for (int j = 0; j < n; ++j) { k.in.cols.emplace_back(); k.in.costs.push_back(static_cast<double>(s.below(4))); }
    } else {
        auto z = size_for(s);
        k.in   = gen::gen_inst(s, z);
        if (kind <= 2) {
            int n = static_cast<int>(s.range(1, 6));
            for (int e = 0; e < n; ++e) {
                auto at = static_cast<std::ptrdiff_t>(s.below(k.in.cols.size() + 1));
                k.in.cols.insert(k.in.cols.begin() + at, std::vector<int>{});
                k.in.costs.insert(k.in.costs.begin() + at, static_cast<double>(s.below(4)));
            }
        } else {  // one row loses every column
            int gone = static_cast<int>(s.below(static_cast<uint64_t>(k.in.nrows)));
            for (auto& col : k.in.cols) col.erase(std::remove(col.begin(), col.end(), gone), col.end());
        }
    }
    k.p = gen::gen_params(s, true, 20);
    const char* names[] = {"no rows", "empty columns", "empty columns", "uncovered row"};
    c.cls(names[kind]);
    c.describe(std::string(names[kind]) + " " + gen::describe(k.p) + " " + gen::describe(k.in));
    Instance inst = build(k.in);
    if (kind == 3) {
        try {
            CftResult r = solve(k, inst);
            c.fail("an instance without a cover was solved: " + gen::show(r.sol.idxs));
        } catch (std::exception const&) {}
    } else {
        CftResult   r = solve(k, inst);
        std::string e = gen::cover_error(k.in, r.sol.idxs);
        if (!e.empty()) c.fail("not a valid cover: " + e + " solution " + gen::show(r.sol.idxs));
    }
    c.nontrivial(kind != 0);
}

PBT_PROP(cost) {  // C02
    Case      k    = make_case(s, c, s.chance(1, 4), false);
    Instance  inst = build(k.in);
    CftResult r    = solve(k, inst);
    for (auto j : r.sol.idxs) c.check(j >= 0 && static_cast<int>(j) < k.in.ncols(), "column out of range");
    double real = gen::cost_of(k.in, r.sol.idxs), rep = static_cast<double>(r.sol.cost);
    if (!(std::fabs(real - rep) <= gen::cost_tol(k.in, real)))
        c.fail(pbt::strf("reported cost %.9g but columns cost %.9g, solution ", rep, real) + gen::show(r.sol.idxs));
    c.cls(k.in.exact ? "exact comparison" : "rounded comparison");
    c.nontrivial(r.sol.idxs.size() >= 2);
}

PBT_PROP(bound) {  // C03
    Case      k    = make_case(s, c, s.chance(1, 6), true);
    Instance  inst = build(k.in);
    CftResult r    = solve(k, inst);
    double    opt = gen::exact_opt(k.in), lb = static_cast<double>(r.dual.lb);
    double    tol = 1e-3 * (1 + opt) + 1e-5 * k.in.nrows;
    if (!(lb <= opt + tol)) c.fail(pbt::strf("lower bound %.9g above the optimum %.9g", lb, opt));
    if (!(lb <= static_cast<double>(r.sol.cost) + tol)) c.fail(pbt::strf("lower bound %.9g above the solution cost %.9g", lb, static_cast<double>(r.sol.cost)));
    c.check(static_cast<int>(r.dual.mults.size()) == k.in.nrows, "%d multipliers for %d rows", static_cast<int>(r.dual.mults.size()), k.in.nrows);
    for (auto u : r.dual.mults)
        if (!(std::isfinite(u) && u >= 0)) c.fail(pbt::strf("multiplier %g", static_cast<double>(u)));
    bool tight = lb > 0.5 * opt && opt > 0;
    c.cls(lb < -1e30 ? "no bound computed" : tight ? "bound within 50% of optimum" : "weak bound");
    if (lb > opt) c.cls("bound above optimum within rounding");
    c.nontrivial(tight && k.in.ncols() > 5);
}

PBT_PROP(warm) {  // C04
    Case k = make_case(s, c, true, false);
    Instance inst = build(k.in);
    int      rounds = 1 + static_cast<int>(s.below(3));
    for (int n = 0; n < rounds; ++n) {
        double    wc = gen::cost_of(k.in, k.warm);
        CftResult r  = solve(k, inst);
        auto      e  = gen::cover_error(k.in, r.sol.idxs);
        if (!e.empty()) c.fail("not a valid cover: " + e + " " + gen::show(r.sol.idxs));
        double rc = gen::cost_of(k.in, r.sol.idxs), tol = gen::cost_tol(k.in, wc), rep = static_cast<double>(r.sol.cost);
        if (!(rc <= wc + tol)) c.fail(pbt::strf("solution costs %.9g, warm start %.9g", rc, wc));
        if (!(std::fabs(rep - rc) <= tol)) c.fail(pbt::strf("reported %.9g, true cost %.9g", rep, rc));
        std::vector<int> nw;
        for (auto j : r.sol.idxs) nw.push_back(static_cast<int>(j));
        bool same = nw == k.warm;
        c.cls(same ? "warm start survived" : rc < wc ? "warm start improved" : "replaced at equal cost");
        c.nontrivial(k.in.nrows >= 3 && k.warm.size() >= 2);
        k.warm   = nw;
        k.p.seed = k.p.seed + 1;
        if (s.chance(1, 2)) {  // a weaker solve after a stronger one
            k.p.heur_iters = s.below(3);
            k.p.epsilon    = s.pick({0.999, 0.01, 0.3});
        }
    }
    // a solve that ends naturally without warm start bounds nothing here: only the start counts
}

PBT_PROP(threephase) {  // C10
    static ThreePhase reused;
    bool              reuse = s.chance(1, 2);
    Case              k     = make_case(s, c, false, s.chance(1, 2));
    Instance          inst  = build(k.in);
    Environment       env;
    set_env(k.p, env);
    ThreePhase fresh;
    CftResult  r = reuse ? reused(env, inst) : fresh(env, inst);
    auto       e = gen::cover_error(k.in, r.sol.idxs);
    if (!e.empty()) c.fail("not a valid cover of the given instance: " + e + " " + gen::show(r.sol.idxs));
    double rc = gen::cost_of(k.in, r.sol.idxs), rep = static_cast<double>(r.sol.cost);
    if (!(std::fabs(rep - rc) <= gen::cost_tol(k.in, rc))) c.fail(pbt::strf("reported %.9g, true cost %.9g", rep, rc));
    c.check(static_cast<int>(r.dual.mults.size()) == k.in.nrows, "%d multipliers for %d rows", static_cast<int>(r.dual.mults.size()), k.in.nrows);
    for (auto u : r.dual.mults)
        if (!(std::isfinite(u) && u >= 0)) c.fail(pbt::strf("multiplier %g", static_cast<double>(u)));
    if (gen::has_exact(k.in)) {
        double opt = gen::exact_opt(k.in), lb = static_cast<double>(r.dual.lb);
        if (!(lb <= opt + 1e-3 * (1 + opt) + 1e-5 * k.in.nrows)) c.fail(pbt::strf("bound %.9g above optimum %.9g", lb, opt));
    }
    bool fixed = static_cast<int>(inst.rows.size()) < k.in.nrows;
    c.cls(fixed ? "columns were fixed" : "no fixing");
    if (reuse) c.cls("reused object");
    c.nontrivial(fixed && r.sol.idxs.size() >= 2);
}
// Large instances: several columns are fixed at a time, covers have dozens of redundant columns, and a row may
// be covered hundreds of times. Part of the solves stop at the first look at the clock.
struct BigRun {
    Case      k;
    CftResult r;
    bool      cut = false;
};
static BigRun run_big(pbt::Src& s, pbt::Ctx& c, bool warm) {
    BigRun b;
    b.cut  = s.chance(1, 2);
    b.k.in = gen::gen_big(s, b.cut ? 1200 : 500);
    b.k.p.seed       = s.below(100);
    b.k.p.heur_iters = s.below(b.cut ? 40 : 8);
    b.k.p.epsilon    = s.pick({0.999, 0.01});
    b.k.p.beta       = s.pick({1.0, 0.0});
    b.k.p.min_fixing = s.pick({0.3, 0.6, 0.95});
    b.k.p.alpha      = s.pick({1.1, 2.0});
    if (warm) b.k.warm = warm_start(s, b.k.in);
    c.describe(gen::describe(b.k.p) + (b.cut ? " stopped at once" : "") + " warm=" + gen::show(b.k.warm) + " " + gen::describe(b.k.in));
    c.cls("family " + b.k.in.fam);
    c.cls(b.cut ? "stopped at once" : "full solve");
    if (b.k.in.nrows >= 400 && !b.cut) c.cls("full solve with 400 rows or more");
    Instance    inst = build(b.k.in);
    Environment env;
    set_env(b.k.p, env);
    if (b.cut) env.time_limit = -1;
    Solution ws;
    for (int j : b.k.warm) ws.idxs.push_back(checked_cast<cidx_t>(j));
    ws.cost = checked_cast<real_t>(gen::cost_of(b.k.in, b.k.warm));
    b.r     = b.k.warm.empty() ? run(env, inst) : run(env, inst, ws);
    std::vector<int> times(static_cast<size_t>(b.k.in.nrows), 0);
    int              most = 0;
    for (auto j : b.r.sol.idxs)
        if (j >= 0 && static_cast<int>(j) < b.k.in.ncols())
            for (int i : b.k.in.cols[static_cast<size_t>(j)]) most = std::max(most, ++times[static_cast<size_t>(i)]);
    if (most > 255) c.cls("a row covered more than 255 times");
    c.nontrivial(b.k.in.nrows >= 100 && b.r.sol.idxs.size() >= 10);
    return b;
}
PBT_PROP(big_cover) {  // C01
    BigRun      b = run_big(s, c, false);
    std::string e = gen::cover_error(b.k.in, b.r.sol.idxs);
    if (!e.empty()) c.fail("not a valid cover: " + e + " solution " + gen::show(b.r.sol.idxs));
}
PBT_PROP(big_cost) {  // C02
    BigRun b = run_big(s, c, false);
    for (auto j : b.r.sol.idxs) c.check(j >= 0 && static_cast<int>(j) < b.k.in.ncols(), "column out of range");
    double real = gen::cost_of(b.k.in, b.r.sol.idxs), rep = static_cast<double>(b.r.sol.cost);
    if (!(std::fabs(real - rep) <= gen::cost_tol(b.k.in, real))) c.fail(pbt::strf("reported cost %.9g but columns cost %.9g", rep, real));
}
PBT_PROP(big_bound) {  // C03: the bound never exceeds the cost of any cover
    BigRun b  = run_big(s, c, false);
    double up = b.k.in.known_opt >= 0 ? b.k.in.known_opt : gen::cost_of(b.k.in, b.r.sol.idxs), lb = static_cast<double>(b.r.dual.lb);
    if (b.k.in.known_opt < 0) {
        std::string e = gen::cover_error(b.k.in, b.r.sol.idxs);
        if (!e.empty()) throw pbt::Discard{};
    }
    if (!(lb <= up + 1e-3 * (1 + up) + 1e-5 * b.k.in.nrows)) c.fail(pbt::strf("lower bound %.9g above the cost %.9g of a cover", lb, up));
    c.check(static_cast<int>(b.r.dual.mults.size()) == b.k.in.nrows, "%d multipliers for %d rows", static_cast<int>(b.r.dual.mults.size()), b.k.in.nrows);
    for (auto u : b.r.dual.mults)
        if (!(std::isfinite(u) && u >= 0)) c.fail(pbt::strf("multiplier %g", static_cast<double>(u)));
}
PBT_PROP(big_warm) {  // C04
    BigRun      b  = run_big(s, c, true);
    double      wc = gen::cost_of(b.k.in, b.k.warm), tol = gen::cost_tol(b.k.in, wc);
    std::string e  = gen::cover_error(b.k.in, b.r.sol.idxs);
    if (!e.empty()) c.fail("not a valid cover: " + e);
    double rc = gen::cost_of(b.k.in, b.r.sol.idxs);
    if (!(rc <= wc + tol)) c.fail(pbt::strf("solution costs %.9g, warm start %.9g", rc, wc));
    c.cls(rc < wc ? "warm start improved" : "warm start kept or matched");
}
PBT_PROP(big_threephase) {  // C10
    static ThreePhase reused;
    bool              reuse = s.chance(1, 2), cut = s.chance(1, 3);
    Inst              in    = gen::gen_big(s, cut ? 1200 : 600);
    Params            p;
    p.seed       = s.below(100);
    p.heur_iters = s.below(12);
    p.epsilon    = s.pick({0.999, 0.01});
    c.describe(gen::describe(p) + (cut ? " stopped at once " : " ") + gen::describe(in));
    c.cls("family " + in.fam);
    if (in.nrows >= 400 && !cut) c.cls("full phase with 400 rows or more");
    Instance    inst = build(in);
    Environment env;
    set_env(p, env);
    if (cut) env.time_limit = -1;
    ThreePhase  fresh;
    CftResult   r = reuse ? reused(env, inst) : fresh(env, inst);
    std::string e = gen::cover_error(in, r.sol.idxs);
    if (!e.empty()) c.fail("not a valid cover of the given instance: " + e);
    double rc = gen::cost_of(in, r.sol.idxs), rep = static_cast<double>(r.sol.cost), lb = static_cast<double>(r.dual.lb);
    if (!(std::fabs(rep - rc) <= gen::cost_tol(in, rc))) c.fail(pbt::strf("reported %.9g, true cost %.9g", rep, rc));
    double up = in.known_opt >= 0 ? in.known_opt : rc;
    if (!(lb <= up + 1e-3 * (1 + up) + 1e-5 * in.nrows)) c.fail(pbt::strf("bound %.9g above the cost %.9g of a cover", lb, up));
    c.check(static_cast<int>(r.dual.mults.size()) == in.nrows, "%d multipliers for %d rows", static_cast<int>(r.dual.mults.size()), in.nrows);
    c.nontrivial(static_cast<int>(inst.rows.size()) < in.nrows && r.sol.idxs.size() >= 10);
}
PBT_MAIN

// Stopping parameters only cut the same solve short (C31).
static bool same_result(CftResult const& a, CftResult const& b) {
    return a.sol.idxs == b.sol.idxs && a.sol.cost == b.sol.cost && a.dual.lb == b.dual.lb && a.dual.mults == b.dual.mults;
}
static Case stop_case(pbt::Src& s, gen::Size z) {
    Case k;
    k.in           = gen::gen_inst(s, z);
    k.p.seed       = s.below(1000);
    k.p.heur_iters = s.chance(1, 2) ? 0 : s.below(6);
    k.p.epsilon    = s.pick({0.999, 0.01, 0.001, 0.5});
    k.p.alpha      = s.pick({1.1, 1.3, 2.0});
    k.p.min_fixing = s.pick({0.3, 0.2, 0.5, 0.1});
    return k;
}
PBT_PROP(stop_target) {  // beta: the solve goes on until the target is met or everything is fixed
    auto z = s.chance(1, 2) ? gen::Size{60, 160} : size_for(s);
    Case k = stop_case(s, z);
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    double b0 = s.pick({0.0, 0.5, 1.0}), b1 = b0 + s.pick({0.02, 0.1, 0.5, 1.0}), within = -1;
    if (s.chance(1, 4)) b1 = 1e6;
    else if (s.chance(1, 2)) within = s.pick({0.0, 0.3, 0.6, 0.9});
    c.describe(gen::describe(k.p) + pbt::strf(" beta %g and %g within %g", b0, b1, within) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    Instance  inst = build(k.in);
    CftResult tp;
    {
        Environment env;
        set_env(k.p, env);
        Instance   work = inst;
        ThreePhase fresh;
        tp = fresh(env, work);
    }
    double lb = static_cast<double>(tp.dual.lb);
    if (!(lb >= 0)) throw pbt::Discard{};  // no bound was computed: no target
    k.p.beta     = b0;
    CftResult r0 = solve(k, inst);
    if (within >= 0 && lb > 0) {  // a target between the smaller beta's result and the first phase's
        double lo = static_cast<double>(r0.sol.cost), hi = static_cast<double>(tp.sol.cost);
        b1 = std::max(b0, (lo + within * (hi - lo) + 1e-4 * (1 + lo) - k.p.epsilon) / lb);
    }
    k.p.beta     = b1;
    CftResult r1 = solve(k, inst);
    for (auto* r : {&r0, &r1}) {
        if (!(r->dual.lb == tp.dual.lb && r->dual.mults == tp.dual.mults))
            c.fail(pbt::strf("bound %.9g or multipliers are not those of the first phase on the whole instance (bound %.9g)", static_cast<double>(r->dual.lb), lb));
    }
    // the best of the first phase and the warm start
    double wc   = gen::cost_of(k.in, k.warm), c0 = static_cast<double>(r0.sol.cost), c1 = static_cast<double>(r1.sol.cost);
    bool   fromwarm = !k.warm.empty() && !(tp.sol.cost < checked_cast<real_t>(wc));
    CftResult first = tp;
    if (fromwarm) {
        first.sol.idxs.clear();
        for (int j : k.warm) first.sol.idxs.push_back(checked_cast<cidx_t>(j));
        first.sol.cost = checked_cast<real_t>(wc);
    }
    double fc = static_cast<double>(first.sol.cost);
    auto   judge = [&](const char* n, double beta, CftResult const& r) {
        double target = beta * lb + k.p.epsilon, m = 1e-5 * (target + 1);
        if (static_cast<double>(r.sol.cost) > fc) c.fail(pbt::strf("%s: cost %.9g, the first phase had %.9g", n, static_cast<double>(r.sol.cost), fc));
        if (fc <= target - m) {
            c.cls("target met by the first phase");
            if (!same_result(r, first))
                c.fail(pbt::strf("%s: target %.9g was met at once with cost %.9g, yet another solution came back, cost %.9g ", n, target, fc, static_cast<double>(r.sol.cost)) + gen::show(r.sol.idxs));
        }
    };
    judge("smaller beta", b0, r0);
    judge("larger beta", b1, r1);
    if (c1 < c0) c.fail(pbt::strf("the solve with the larger beta went on further: cost %.9g against %.9g", c1, c0));
    double t1 = b1 * lb + k.p.epsilon, m1 = 1e-5 * (t1 + 1);
    if (!same_result(r0, r1)) {
        c.cls("larger beta stopped earlier");
        if (c1 > t1 + m1) c.fail(pbt::strf("stopped with cost %.9g above the target %.9g, the smaller beta went on to %.9g", c1, t1, c0));
    }
    if (fc > t1 + m1) c.cls("target missed by the first phase");
    c.nontrivial(k.in.nrows >= 3 && tp.sol.idxs.size() >= 2 && c0 < fc);
    if (c0 < fc) c.cls("refinement improved");
}
PBT_PROP(stop_allfixed) {  // min_fixing = 1: nothing is left free after the first phase
    Case k = stop_case(s, size_for(s));
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    k.p.beta       = s.pick({0.0, 1.0});
    k.p.min_fixing = 1.0;
    c.describe(gen::describe(k.p) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    Instance  inst = build(k.in);
    CftResult tp;
    {
        Environment env;
        set_env(k.p, env);
        Instance   work = inst;
        ThreePhase fresh;
        tp = fresh(env, work);
    }
    CftResult r  = solve(k, inst);
    double    wc = gen::cost_of(k.in, k.warm);
    if (!k.warm.empty() && !(tp.sol.cost < checked_cast<real_t>(wc))) {
        tp.sol.idxs.clear();
        for (int j : k.warm) tp.sol.idxs.push_back(checked_cast<cidx_t>(j));
        tp.sol.cost = checked_cast<real_t>(wc);
        c.cls("warm start is the best");
    }
    if (!same_result(r, tp))
        c.fail(pbt::strf("all rows fixed, yet cost %.9g against %.9g of the first phase ", static_cast<double>(r.sol.cost), static_cast<double>(tp.sol.cost)) + gen::show(r.sol.idxs));
    c.nontrivial(k.in.nrows >= 3 && tp.sol.idxs.size() >= 2 && static_cast<double>(tp.sol.cost) > static_cast<double>(tp.dual.lb) + k.p.epsilon);
}
PBT_PROP(stop_bound) {  // exit thresholds: a phase stopped earlier has no better bound
    Case k = stop_case(s, s.chance(1, 3) ? gen::Size{90, 300} : gen::Size{60, 160});
    if (k.in.nrows <= 30 && !s.chance(1, 10)) throw pbt::Discard{};
    Params a = k.p, b = k.p;
    a.abs_exit = s.pick({0.0, 0.1, 0.5});
    a.rel_exit = s.pick({0.0, 0.001, 0.01});
    b.abs_exit = a.abs_exit + s.pick({0.0, 0.5, 5.0, 1e6});
    b.rel_exit = a.rel_exit + s.pick({0.0, 0.001, 0.05, 1e6});
    bool eps   = s.chance(1, 3);
    if (eps) b.epsilon = a.epsilon + s.pick({0.5, 2.0, 20.0, 1e6});
    if (s.chance(1, 3)) b.seed = a.seed + 1;
    if (s.chance(1, 3)) b.heur_iters = a.heur_iters + 3;
    c.describe(gen::describe(a) + " / " + gen::describe(b) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    Instance inst = build(k.in);
    auto     phase = [&](Params const& p) {
        Environment env;
        set_env(p, env);
        Instance   work = inst;
        ThreePhase fresh;
        return fresh(env, work);
    };
    CftResult ra = phase(a), rb = phase(b);
    double    la = static_cast<double>(ra.dual.lb), lb = static_cast<double>(rb.dual.lb);
    if (lb > la) c.fail(pbt::strf("wider exit thresholds gave the bound %.9g, narrower ones %.9g", lb, la));
    bool same_thr = a.abs_exit == b.abs_exit && a.rel_exit == b.rel_exit && a.epsilon == b.epsilon;
    if (same_thr && !(la == lb && ra.dual.mults == rb.dual.mults)) c.fail("bound or multipliers depend on the seed or on the heuristic's length");
    c.cls(lb < la ? "stopped earlier" : same_thr ? "same thresholds" : "same bound");
    c.nontrivial(lb < la || same_thr);
}
