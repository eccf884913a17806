// Pricing (C15) and subgradient phase (C16).
#include "comp.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/Pricer.hpp"
#include "subgradient/Subgradient.hpp"
#include "utils/limits.hpp"
using namespace cftx;
using namespace comp;
using gen::Inst;

// "" when core is a consistent sub-instance of `in` covering every row.
static std::string core_error(Inst const& in, InstAndMap const& core) {
    size_t n = core.inst.cols.size();
    if (core.col_map.size() != n || core.inst.costs.size() != n) return pbt::strf("%zu columns, %zu costs, %zu mapped", n, core.inst.costs.size(), core.col_map.size());
    auto e = set_error(in, ints(core.col_map));
    if (!e.empty()) return "column map: " + e;
    if (static_cast<int>(core.inst.rows.size()) != in.nrows) return pbt::strf("%zu rows instead of %d", core.inst.rows.size(), in.nrows);
    std::vector<std::vector<int>> rl(static_cast<size_t>(in.nrows));
    for (size_t k = 0; k < n; ++k) {
        size_t j = static_cast<size_t>(core.col_map[k]);
        std::vector<int> a, b = in.cols[j];
        for (auto i : core.inst.cols[k]) a.push_back(static_cast<int>(i));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) return pbt::strf("core column %zu is not a copy of column %zu", k, j);
        if (static_cast<double>(core.inst.costs[k]) != in.costs[j]) return pbt::strf("core column %zu costs %g, column %zu costs %g", k, static_cast<double>(core.inst.costs[k]), j, in.costs[j]);
        for (int i : a) rl[static_cast<size_t>(i)].push_back(static_cast<int>(k));
    }
    for (size_t i = 0; i < rl.size(); ++i) {
        auto r = ints(core.inst.rows[i]);
        std::sort(r.begin(), r.end());
        if (r != rl[i]) return pbt::strf("core row %zu lists ", i) + gen::show(r) + " instead of " + gen::show(rl[i]);
        if (r.empty()) return pbt::strf("core covers row %zu with no column", i);
    }
    return "";
}

PBT_PROP(pricing) {  // C15
    static Pricer     shared;
    static InstAndMap shared_core;
    Inst              in = gen::gen_inst(s, size_for(s), s.chance(1, 4) ? 8 : -1);
    std::string       um;
    auto              u = gen_mults(s, in, &um);
    bool              exact = exact_sums(in, u);
    bool              reuse = s.chance(1, 2);
    c.describe("mults " + um + gen::show(u) + " " + gen::describe(in));
    Instance   inst = build(in);
    Pricer     fresh;
    InstAndMap fcore;
    auto&      core = reuse ? shared_core : fcore;
    auto       ur = reals(u);
    double     lb = static_cast<double>((reuse ? shared : fresh)(inst, ur, core));
    auto       rc = red_costs(in, u);
    double     L = 0, mag = 0;
    for (double x : u) { L += x; mag += x; }
    for (double x : rc) if (x < 0) { L += x; mag -= x; }
    for (double x : in.costs) mag = std::max(mag, x);
    double tol = exact ? 0 : 1e-4 * mag + 1e-6;
    c.check(std::fabs(lb - L) <= tol + (exact && mag * 64 >= (1 << 23) ? 1e-5 * mag : 0), "bound %.9g, Lagrangian value %.9g", lb, L);
    auto e = core_error(in, core);
    if (!e.empty()) c.fail("core: " + e);
    double eps = exact ? 0 : 1e-5 * mag;
    std::vector<char> in_core(in.cols.size(), 0), by_row(in.cols.size(), 0);
    for (int j : ints(core.col_map)) in_core[static_cast<size_t>(j)] = 1;
    int full_rows = 0;
    for (int i = 0; i < in.nrows; ++i) {
        std::vector<int>    mem;
        std::vector<double> v;
        for (int j = 0; j < in.ncols(); ++j) {
            auto const& col = in.cols[static_cast<size_t>(j)];
            if (std::find(col.begin(), col.end(), i) != col.end()) { mem.push_back(j); v.push_back(rc[static_cast<size_t>(j)]); }
        }
        std::sort(v.begin(), v.end());
        size_t k = std::min<size_t>(5, v.size());
        double fifth = v[k - 1];
        size_t have = 0;
        full_rows += v.size() > 5;
        for (int j : mem) {
            size_t x = static_cast<size_t>(j);
            have += in_core[x] && rc[x] <= fifth + eps;
            if (rc[x] < fifth - eps && !in_core[x]) c.fail(pbt::strf("row %d: column %d with reduced cost %.9g is missing, fifth smallest is %.9g", i, j, rc[x], fifth));
            if (rc[x] <= fifth + eps) by_row[x] = 1;
        }
        c.check(have >= k, "row %d: only %d of the %d smallest reduced costs are in the core", i, static_cast<int>(have), static_cast<int>(k));
    }
    // small reduced costs, up to the quota
    const double        thr = 0.1, gap = 1e-3;
    size_t              quota = 5 * static_cast<size_t>(in.nrows);
    std::vector<double> small;
    for (double x : rc) if (x < thr) small.push_back(x);
    std::sort(small.begin(), small.end());
    double last = small.empty() ? -1e300 : small[std::min(quota, small.size()) - 1];
    if (small.size() > quota) c.cls("more than the quota");
    size_t over = 0, got = 0;
    for (size_t j = 0; j < in.cols.size(); ++j) {
        bool must = small.size() <= quota ? rc[j] < thr - gap : (rc[j] < last - eps && rc[j] < thr - gap);
        if (must && !in_core[j]) c.fail(pbt::strf("column %zu with reduced cost %.9g is missing (%zu below the threshold, quota %zu)", j, rc[j], small.size(), quota));
        got += in_core[j] && rc[j] < thr + gap;
        if (in_core[j] && !by_row[j]) {
            ++over;
            if (!(rc[j] < thr + gap)) c.fail(pbt::strf("column %zu with reduced cost %.9g is kept without reason", j, rc[j]));
            if (exact && small.size() > quota && rc[j] > last) c.fail(pbt::strf("column %zu with reduced cost %.9g is kept beyond the quota (%.9g)", j, rc[j], last));
        }
    }
    if (exact && small.size() > quota) {
        c.check(over <= quota, "%d columns kept by the quota of %d", static_cast<int>(over), static_cast<int>(quota));
        c.check(got >= quota, "only %d of %d cheap columns kept", static_cast<int>(got), static_cast<int>(quota));
    }
    if (exact) c.cls("exact comparison");
    if (reuse) c.cls("reused object");
    if (full_rows) c.cls("rows with more than five columns");
    bool partial = core.inst.cols.size() < in.cols.size();
    c.cls(partial ? "partial core" : "full core");
    c.nontrivial(partial && in.nrows >= 2);
}

static gen::Size sub_size(pbt::Src& s) {
    switch (s.below(5)) {
        case 0: return {6, 20};
        case 1: case 2: return {13, 60};
        case 3: return {13, 150};
        default: return {60, 250};
    }
}

PBT_PROP(phase) {  // C16
    static Subgradient shared;
    static Pricer      shared_pricer;
    static Greedy      shared_greedy;
    Subgradient        fresh;
    Pricer             fresh_pricer;
    Greedy             fresh_greedy;
    auto               z = sub_size(s);
    Inst               in = gen::gen_inst(s, z, z.max_rows > 14 ? 4 : -1);
    auto               p = gen::gen_params(s, true, 40);
    std::string        um;
    auto               u0 = gen_mults(s, in, &um), u1 = s.chance(1, 2) ? gen_mults(s, in) : u0;
    bool               reuse = s.chance(1, 2);
    double             opt = gen::exact_opt(in);
    double             cutoff = gen::tofloat(opt * s.pick({1.0, 1.05, 1.5, 4.0, 1.01}) + s.pick({0.0, 1.0, 0.5}));
    double             step = s.pick({0.1, 0.1, 1e-6, 1.0, 10.0, 0.5});
    c.describe(pbt::strf("cutoff %g step %g mults ", cutoff, step) + gen::show(u1) + " " + gen::describe(p) + " " + gen::describe(in));
    c.cls("mults " + um);
    Instance    inst = build(in);
    Environment env;
    set_env(p, env);
    auto&      sg = reuse ? shared : fresh;
    auto&      pr = reuse ? shared_pricer : fresh_pricer;
    auto&      gr = reuse ? shared_greedy : fresh_greedy;
    InstAndMap core;
    auto       ur = reals(u0);
    if (in.costs.empty()) throw pbt::Discard{};
    pr(inst, ur, core);
    auto mult_error = [&](std::vector<real_t> const& v) -> std::string {
        if (static_cast<int>(v.size()) != in.nrows) return pbt::strf("%zu multipliers for %d rows", v.size(), in.nrows);
        for (auto x : v) if (!(std::isfinite(x) && x >= 0)) return pbt::strf("multiplier %g", static_cast<double>(x));
        return "";
    };
    std::vector<real_t> um1 = reals(u1);
    real_t              st = static_cast<real_t>(step);
    int                 priced = 0;
    int                 rounds = static_cast<int>(s.range(1, 2));
    double              inc = cutoff;
    for (int r = 0; r < rounds; ++r) {
        auto   map0 = core.col_map;
        real_t cut = static_cast<real_t>(cutoff);
        double mag = 0, mag2 = 0;
        for (auto x : um1) mag += static_cast<double>(x);
        double lb = static_cast<double>(sg(env, inst, cut, pr, core, st, um1));
        for (auto x : um1) mag2 += static_cast<double>(x);
        // sums of large multipliers cancel: their rounding is part of the tolerance
        if (lb > opt + 1e-3 * (1 + opt) + 1e-5 * in.nrows + 1e-5 * std::max(mag, mag2)) c.fail(pbt::strf("bound %.9g above the optimum %.9g", lb, opt));
        auto e = mult_error(um1);
        if (!e.empty()) c.fail("after the subgradient phase: " + e);
        e = core_error(in, core);
        if (!e.empty()) c.fail("core after the subgradient phase: " + e);
        if (!(std::isfinite(st) && st > 0)) c.fail(pbt::strf("step size %g", static_cast<double>(st)));
        priced += map0 != core.col_map;
        // heuristic phase on the core
        Solution best;
        best.cost = static_cast<real_t>(inc);
        sg.heuristic(env, core.inst, st, gr, best, um1);
        e = mult_error(um1);
        if (!e.empty()) c.fail("after the heuristic phase: " + e);
        if (best.idxs.empty()) {
            c.check(static_cast<double>(best.cost) == inc, "incumbent cost changed from %.9g to %.9g without a solution", inc, static_cast<double>(best.cost));
            c.cls("incumbent kept");
        } else {
            c.check(static_cast<double>(best.cost) < inc, "incumbent %.9g replaced by %.9g", inc, static_cast<double>(best.cost));
            std::vector<int> orig;
            for (auto k : best.idxs) {
                c.check(k >= 0 && static_cast<size_t>(k) < core.col_map.size(), "column %d outside the core", static_cast<int>(k));
                orig.push_back(static_cast<int>(core.col_map[static_cast<size_t>(k)]));
            }
            e = gen::cover_error(in, orig);
            if (!e.empty()) c.fail("heuristic solution: " + e);
            double real = gen::cost_of(in, orig);
            c.check(std::fabs(real - static_cast<double>(best.cost)) <= gen::cost_tol(in, real), "heuristic solution reported at %.9g, costs %.9g", static_cast<double>(best.cost), real);
            c.cls("incumbent improved");
        }
    }
    if (priced) c.cls("core re-priced");
    if (reuse) c.cls("reused objects");
    c.nontrivial(in.nrows >= 3 && priced);
}
PBT_MAIN
