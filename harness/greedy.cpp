// Greedy step and redundancy removal (C11-C13).
#include "comp.hpp"
#include "greedy/Greedy.hpp"
#include "greedy/redundancy.hpp"
#include "utils/limits.hpp"
using namespace cftx;
using namespace comp;
using gen::Inst;

struct GCase {
    Inst                in;
    std::vector<double> u, rc;
    std::vector<int>    start;
    bool                exact = false;
    bool                reuse = false;
};

static GCase make(pbt::Src& s, pbt::Ctx& c, bool want_exact) {
    GCase g;
    g.in = gen::gen_inst(s, size_for(s), s.chance(1, 4) ? 6 : -1);
    std::string um;
    g.u     = gen_mults(s, g.in, &um);
    g.rc    = red_costs(g.in, g.u);
    g.exact = exact_sums(g.in, g.u);
    if (want_exact && !g.exact) throw pbt::Discard{};
    if (s.chance(1, 8)) {  // reduced costs need not come from the multipliers (core costs are passed too)
        g.rc = g.in.costs;
        um += "+plain costs";
    }
    if (s.chance(1, 2)) {
        auto sub = gen::rnd_subset(s, g.in.ncols(), static_cast<int>(s.skewed(0, std::max(1, g.in.ncols() / 2))));
        std::vector<int> keep;
        for (int j : sub) {  // stay below a full cover
            keep.push_back(j);
            if (covers_all(g.in, keep)) { keep.pop_back(); }
        }
        g.start = keep;
    }
    g.reuse = s.chance(1, 2);
    c.describe("mults " + um + " " + gen::show(g.u) + " start " + gen::show(g.start) + " " + gen::describe(g.in));
    c.cls("family " + g.in.fam);
    c.cls("mults " + um);
    if (!g.start.empty()) c.cls("non-empty start");
    return g;
}

static double call(GCase const& g, Instance const& inst, std::vector<int>& sol, double cutoff, int max_size, bool has_cut, bool has_max) {
    static Greedy       shared;
    Greedy              fresh;
    Greedy&             gr = g.reuse ? shared : fresh;
    std::vector<real_t> u = reals(g.u), rc = reals(g.rc);
    std::vector<cidx_t> v;
    for (int j : sol) v.push_back(static_cast<cidx_t>(j));
    real_t r;
    if (has_max) r = gr(inst, u, rc, v, has_cut ? static_cast<real_t>(cutoff) : std::numeric_limits<real_t>::max(), static_cast<cidx_t>(max_size));
    else if (has_cut) r = gr(inst, u, rc, v, static_cast<real_t>(cutoff));
    else r = gr(inst, u, rc, v);
    sol = ints(v);
    return static_cast<double>(r);
}
static const double LOWEST = -static_cast<double>(std::numeric_limits<real_t>::max());

// Columns individually droppable from a cover.
static std::vector<int> droppable(Inst const& in, std::vector<int> const& sol) {
    auto             n = cover_count(in, sol);
    std::vector<int> r;
    for (int j : sol) {
        bool red = true;
        for (int i : in.cols[static_cast<size_t>(j)]) red = red && n[static_cast<size_t>(i)] > 1;
        if (red) r.push_back(j);
    }
    return r;
}

static void check_cover(pbt::Ctx& c, GCase const& g, std::vector<int> const& sol, double cost, const char* what) {
    auto e = gen::cover_error(g.in, sol);
    if (!e.empty()) c.fail(std::string(what) + ": " + e + " in " + gen::show(sol));
    double real = gen::cost_of(g.in, sol);
    if (!(std::fabs(real - cost) <= gen::cost_tol(g.in, real))) c.fail(pbt::strf("%s: returned %.9g, cover costs %.9g ", what, cost, real) + gen::show(sol));
    if (g.in.exact)
        for (int j : droppable(g.in, sol))
            if (g.in.costs[static_cast<size_t>(j)] > 0) c.fail(pbt::strf("%s: column %d can be dropped from ", what, j) + gen::show(sol));
}

PBT_PROP(complete) {  // C11
    GCase    g    = make(s, c, false);
    Instance inst = build(g.in);
    auto     sol  = g.start;
    double   cost = call(g, inst, sol, 0, 0, false, false);
    check_cover(c, g, sol, cost, "no limits");
    c.nontrivial(sol.size() >= 2 && g.in.nrows >= 3);
    int nred = 0;
    {
        auto full = g.start;
        call(g, inst, full, LOWEST, 0, true, false);
        nred = static_cast<int>(droppable(g.in, full).size());
    }
    c.cls(nred == 0 ? "no redundant column" : nred <= 10 ? "1-10 redundant columns" : "more than 10 redundant columns");
    // cutoffs around the cost
    for (int k = 0; k < 3; ++k) {
        double cut;
        switch (s.below(6)) {
            case 0: cut = cost; break;
            case 1: cut = cost + 1; break;
            case 2: cut = cost - 1; break;
            case 3: cut = cost * static_cast<double>(s.range(0, 16)) / 8; break;
            case 4: cut = gen::tofloat(cost * (0.5 + s.unit())); break;
            default: cut = gen::tofloat(cost * 1.0001 + 0.001); break;
        }
        cut       = gen::tofloat(cut);
        auto   s2 = g.start;
        double c2 = call(g, inst, s2, cut, 0, true, false);
        if (c2 < cut) {
            check_cover(c, g, s2, c2, "with cutoff");
            c.cls("cutoff beaten");
        } else c.cls("cutoff not beaten");
        if (g.in.exact && (c2 < cut) != (cost < cut))
            c.fail(pbt::strf("cutoff %.9g: returned %.9g, but %.9g without cutoff", cut, c2, cost));
        if (g.in.exact && c2 < cut && c2 != cost) c.fail(pbt::strf("cutoff %.9g: returned %.9g, but %.9g without cutoff", cut, c2, cost));
    }
}

static double score(double gamma, int mu) {
    float gf = static_cast<float>(gamma);
    if (mu == 0) return 1e300;
    return gf > 0 ? static_cast<double>(gf / static_cast<float>(mu)) : static_cast<double>(gf * static_cast<float>(mu));
}
// Checks that every column of `seq` after the start has the best score at its turn.
static int check_selection(pbt::Ctx& c, GCase const& g, std::vector<int> const& seq, size_t nstart, const char* what) {
    size_t            n = g.in.cols.size();
    std::vector<char> cov(static_cast<size_t>(g.in.nrows), 0), taken(n, 0);
    int               uncovered = g.in.nrows;
    auto take = [&](int j) {
        taken[static_cast<size_t>(j)] = 1;
        for (int i : g.in.cols[static_cast<size_t>(j)])
            if (!cov[static_cast<size_t>(i)]) { cov[static_cast<size_t>(i)] = 1; --uncovered; }
    };
    for (size_t k = 0; k < nstart; ++k) take(seq[k]);
    int negative = 0;
    for (size_t k = nstart; k < seq.size(); ++k) {
        if (uncovered == 0) c.fail(pbt::strf("%s: column %d selected after everything was covered", what, seq[k]));
        double best = 1e300, mine = 1e300;
        int    bj = -1;
        for (size_t j = 0; j < n; ++j) {
            if (taken[j]) continue;
            double gamma = g.rc[j];
            int    mu    = 0;
            for (int i : g.in.cols[j]) {
                if (cov[static_cast<size_t>(i)]) gamma += g.u[static_cast<size_t>(i)];
                else ++mu;
            }
            if (mu == 0) continue;
            double sc = score(gamma, mu);
            if (sc < best) { best = sc; bj = static_cast<int>(j); }
            if (static_cast<int>(j) == seq[k]) mine = sc;
        }
        if (mine >= 1e299) c.fail(pbt::strf("%s: step %zu selects column %d, which covers nothing new", what, k - nstart, seq[k]));
        if (!(mine <= best + 1e-6 * std::fabs(best) + 1e-9))
            c.fail(pbt::strf("%s: step %zu selects column %d with score %.9g, but column %d has %.9g; sequence ", what, k - nstart, seq[k], mine, bj, best) + gen::show(seq));
        if (mine < 0) ++negative;
        take(seq[k]);
    }
    return negative;
}

PBT_PROP(selection) {  // C12
    GCase    g    = make(s, c, true);
    Instance inst = build(g.in);
    // A cutoff nothing can beat leaves the selection as it was made.
    auto seq = g.start;
    call(g, inst, seq, LOWEST, 0, true, false);
    auto e = set_error(g.in, seq);
    if (!e.empty()) c.fail("selection: " + e + " " + gen::show(seq));
    c.require(seq.size() >= g.start.size() && std::equal(g.start.begin(), g.start.end(), seq.begin()), "the starting columns are not kept first");
    c.check(covers_all(g.in, seq), "selection does not cover all rows");
    int neg   = check_selection(c, g, seq, g.start.size(), "selection");
    int steps = static_cast<int>(seq.size() - g.start.size());
    if (neg) c.cls("negative scores");
    c.num("selection steps", steps);
    c.nontrivial(steps >= 3);
    // with a size limit
    int  lim = static_cast<int>(g.start.size()) + static_cast<int>(s.range(0, steps + 1));
    auto s2  = g.start;
    double r = call(g, inst, s2, LOWEST, lim, true, true);
    (void)r;
    e = set_error(g.in, s2);
    if (!e.empty()) c.fail("limited selection: " + e + " " + gen::show(s2));
    c.check(static_cast<int>(s2.size()) <= std::max(lim, static_cast<int>(g.start.size())), "size limit %d, %d columns selected", lim, static_cast<int>(s2.size()));
    c.require(s2.size() >= g.start.size() && std::equal(g.start.begin(), g.start.end(), s2.begin()), "limited: the starting columns are not kept first");
    c.check(static_cast<int>(s2.size()) == lim || covers_all(g.in, s2), "limit %d: stopped at %d columns without covering", lim, static_cast<int>(s2.size()));
    check_selection(c, g, s2, g.start.size(), "limited selection");
    if (lim < static_cast<int>(seq.size())) c.cls("limit binding");
    // with a limit and no cutoff the result is a subset of the selection with the same coverage
    auto s3 = g.start;
    call(g, inst, s3, 0, lim, false, true);
    e = set_error(g.in, s3);
    if (!e.empty()) c.fail("limited result: " + e + " " + gen::show(s3));
    std::set<int> sel(s2.begin(), s2.end());
    for (int j : s3) c.check(sel.count(j) == 1, "limited result holds column %d, which was not selected", j);
    auto a = cover_count(g.in, s2), b = cover_count(g.in, s3);
    for (size_t i = 0; i < a.size(); ++i) c.check((a[i] > 0) == (b[i] > 0), "limited result loses row %d", static_cast<int>(i));
}

// Reference: what redundancy removal should leave. With more than ten droppable columns the most
// expensive is dropped first (costs are distinct then, so the choice is unique).
struct RefRed {
    double           base = 0, best = 0;  // cost of the columns that must stay / of the cheapest result
    std::vector<int> must, opt;           // opt: remaining droppable columns
    std::vector<int> dropped;
    bool             ambiguous = false;
};
static RefRed reference(Inst const& in, std::vector<int> const& sol) {
    RefRed           r;
    std::vector<int> cur = sol;
    while (true) {
        auto d = droppable(in, cur);
        std::set<int> ds(d.begin(), d.end());
        std::vector<int> must;
        for (int j : cur) if (!ds.count(j)) must.push_back(j);
        auto a = cover_count(in, sol), b = cover_count(in, must);
        bool done = true;
        for (size_t i = 0; i < a.size(); ++i) done = done && ((a[i] > 0) == (b[i] > 0));
        if (d.size() <= 10 || done) { r.must = must; r.opt = d; if (done) { r.opt.clear(); for (int j : d) r.dropped.push_back(j); } break; }
        int w = d[0], ties = 0;
        for (int j : d) if (in.costs[static_cast<size_t>(j)] > in.costs[static_cast<size_t>(w)]) w = j;
        for (int j : d) ties += in.costs[static_cast<size_t>(j)] == in.costs[static_cast<size_t>(w)];
        if (ties > 1) r.ambiguous = true;
        r.dropped.push_back(w);
        cur.erase(std::find(cur.begin(), cur.end(), w));
    }
    r.base = gen::cost_of(in, r.must);
    auto   target = cover_count(in, sol), have = cover_count(in, r.must);
    double best = 1e300;
    for (uint32_t m = 0; m < (1u << r.opt.size()); ++m) {
        double cost = r.base;
        for (size_t k = 0; k < r.opt.size(); ++k) if (m >> k & 1u) cost += in.costs[static_cast<size_t>(r.opt[k])];
        if (cost >= best) continue;
        auto h = have;
        for (size_t k = 0; k < r.opt.size(); ++k)
            if (m >> k & 1u) for (int i : in.cols[static_cast<size_t>(r.opt[k])]) ++h[static_cast<size_t>(i)];
        bool ok = true;
        for (size_t i = 0; i < h.size() && ok; ++i) ok = target[i] == 0 || h[i] > 0;
        if (ok) best = cost;
    }
    r.best = best;
    return r;
}

PBT_PROP(redundancy) {  // C13, redundancy functions directly
    Inst in = gen::gen_inst(s, size_for(s), s.chance(1, 2) ? 6 : -1);
    bool distinct = s.chance(1, 2);
    if (distinct) {  // all costs different
        std::vector<int> p(in.cols.size());
        std::iota(p.begin(), p.end(), 1);
        s.shuffle(p);
        for (size_t j = 0; j < p.size(); ++j) in.costs[j] = p[j] * 0.5;
        gen::compute_exact(in);
    }
    if (!in.exact) throw pbt::Discard{};
    // a cover: random order, random surplus
    std::vector<int> ord(in.cols.size()), sol;
    std::iota(ord.begin(), ord.end(), 0);
    s.shuffle(ord);
    int extra = static_cast<int>(s.range(0, 14));
    std::vector<int> have(static_cast<size_t>(in.nrows), 0);
    for (int j : ord) {
        bool useful = false;
        for (int i : in.cols[static_cast<size_t>(j)]) useful = useful || !have[static_cast<size_t>(i)];
        if (!useful && extra-- <= 0) continue;
        for (int i : in.cols[static_cast<size_t>(j)]) ++have[static_cast<size_t>(i)];
        sol.push_back(j);
    }
    c.describe("solution " + gen::show(sol) + " " + gen::describe(in));
    Instance inst = build(in);
    RefRed   ref  = reference(in, sol);
    double   total = gen::cost_of(in, sol);
    bool     has_cut = s.chance(1, 3);
    double   cut = has_cut ? gen::tofloat(s.pick({ref.best, ref.best + 0.5, ref.best - 0.5, total, total + 1, ref.base, std::floor((ref.best + total))})) : 0;

    static RedundancyData reused;
    RedundancyData        fresh;
    RedundancyData&       rd = s.chance(1, 2) ? reused : fresh;
    std::vector<cidx_t>   v;
    for (int j : sol) v.push_back(static_cast<cidx_t>(j));
    rd.total_cover.reset(static_cast<size_t>(in.nrows));
    for (cidx_t j : v) rd.total_cover.cover(inst.cols[static_cast<size_t>(j)]);
    real_t rcut = has_cut ? static_cast<real_t>(cut) : std::numeric_limits<real_t>::max();
    complete_init_redund_set(inst, v, rcut, rd);
    size_t nred = droppable(in, sol).size();
    bool   small_part = !(rd.partial_cost < rcut);  // the columns that must stay already cost too much
    if (!small_part) {
        c.check(rd.redund_set.size() == nred, "%d redundant columns found, %d exist", static_cast<int>(rd.redund_set.size()), static_cast<int>(nred));
        for (auto x : rd.redund_set) {
            auto d = droppable(in, sol);
            c.check(std::count(d.begin(), d.end(), static_cast<int>(x.idx)) == 1, "column %d is not redundant", static_cast<int>(x.idx));
        }
        heuristic_removal(inst, rd);
        bool complete = static_cast<int>(rd.partial_cov_count) == in.nrows;
        std::vector<int> kept;
        double           cost;
        if (!complete && rd.partial_cost < rd.best_cost && !rd.redund_set.empty()) {
            c.check(rd.redund_set.size() <= 10, "%d columns left to enumerate", static_cast<int>(rd.redund_set.size()));
            enumeration_removal(inst, rd);
            cost = static_cast<double>(rd.best_cost);
        } else {
            for (auto x : rd.redund_set) rd.cols_to_remove.push_back(x.idx);
            cost = static_cast<double>(rd.partial_cost);
        }
        auto rem = ints(rd.cols_to_remove);
        for (int j : sol) if (!std::count(rem.begin(), rem.end(), j)) kept.push_back(j);
        bool beat = !has_cut || cost < cut;
        if (beat) {
            auto e = gen::cover_error(in, kept);
            if (!e.empty()) c.fail("after removal: " + e + " kept " + gen::show(kept));
            double real = gen::cost_of(in, kept);
            c.check(real == cost, "kept columns cost %.9g, reported %.9g", real, cost);
            if (!ref.ambiguous) c.check(cost == ref.best, "kept cost %.9g, cheapest is %.9g", cost, ref.best);
        } else if (!ref.ambiguous) c.check(!(ref.best < cut), "cutoff %.9g reported as not beaten, but %.9g is possible", cut, ref.best);
    } else c.check(has_cut && ref.base >= cut - 1e-9, "stopped at %.9g below the cutoff", static_cast<double>(rd.partial_cost));
    c.cls(nred == 0 ? "no redundant column" : nred <= 10 ? "1-10 redundant columns" : "more than 10 redundant columns");
    if (ref.ambiguous) c.cls("cost ties above ten");
    if (has_cut) c.cls("with cutoff");
    c.nontrivial(nred >= 2);
}

// Costs whose sums are not exact: whatever the order of the additions, the reported cost of a reduction stays within
// the rounding of one summation of the solution. A cost that is carried along by adding and subtracting does not.
PBT_PROP(redundancy_rounding) {  // C13
    Inst in = gen::gen_inst(s, size_for(s), s.chance(3, 4) ? 6 : -1);
    int  style = static_cast<int>(s.below(4));
    for (auto& x : in.costs) {
        double v = 1 + s.unit();
        if (style == 0) x = gen::tofloat(v * 100);
        else if (style == 1) x = gen::tofloat(v * std::ldexp(1.0, static_cast<int>(s.below(24))));
        else if (style == 2) x = gen::tofloat(s.chance(1, 3) ? v * 1e6 : v * 0.1);
        else x = gen::tofloat(static_cast<double>(s.range(1, 99)) / 100);
    }
    std::vector<int> ord(in.cols.size()), sol;
    std::iota(ord.begin(), ord.end(), 0);
    s.shuffle(ord);
    int extra = static_cast<int>(s.range(0, 12));
    std::vector<int> have(static_cast<size_t>(in.nrows), 0);
    for (int j : ord) {
        bool useful = false;
        for (int i : in.cols[static_cast<size_t>(j)]) useful = useful || !have[static_cast<size_t>(i)];
        if (!useful && extra-- <= 0) continue;
        for (int i : in.cols[static_cast<size_t>(j)]) ++have[static_cast<size_t>(i)];
        sol.push_back(j);
    }
    size_t nred = droppable(in, sol).size();
    c.describe("solution " + gen::show(sol) + " " + gen::describe(in));
    c.cls(pbt::strf("cost style %d", style));
    c.cls(nred == 0 ? "no redundant column" : nred <= 10 ? "1-10 redundant columns" : "more than 10 redundant columns");
    c.nontrivial(nred >= 3 && nred <= 10);
    if (nred == 0 || nred > 10) return;
    Instance            inst = build(in);
    RedundancyData      rd;
    std::vector<cidx_t> v;
    for (int j : sol) v.push_back(static_cast<cidx_t>(j));
    rd.total_cover.reset(static_cast<size_t>(in.nrows));
    for (cidx_t j : v) rd.total_cover.cover(inst.cols[static_cast<size_t>(j)]);
    real_t nocut = std::numeric_limits<real_t>::max();
    complete_init_redund_set(inst, v, nocut, rd);
    heuristic_removal(inst, rd);
    if (static_cast<int>(rd.partial_cov_count) == in.nrows || rd.redund_set.empty()) return;
    enumeration_removal(inst, rd);
    auto             rem = ints(rd.cols_to_remove);
    std::vector<int> kept;
    for (int j : sol) if (!std::count(rem.begin(), rem.end(), j)) kept.push_back(j);
    auto e = gen::cover_error(in, kept);
    if (!e.empty()) c.fail("after removal: " + e + " kept " + gen::show(kept));
    double real = gen::cost_of(in, kept), cost = static_cast<double>(rd.best_cost);
    double eps = std::ldexp(1.0, -24), tol = eps * static_cast<double>(sol.size()) * gen::cost_of(in, sol);
    c.check(std::fabs(real - cost) <= tol, "kept columns cost %.12g, reported %.12g (rounding allows %.3g)", real, cost, tol);
    RefRed ref = reference(in, sol);
    double slack = 2 * eps * static_cast<double>(sol.size() + 1) * gen::cost_of(in, sol);
    c.check(real <= ref.best + slack, "kept columns cost %.12g, cheapest is %.12g", real, ref.best);
    c.num("rounding used, percent of the allowance", tol > 0 ? 100 * std::fabs(real - cost) / tol : 0);
}

PBT_PROP(greedy_removal) {  // C13, through the greedy step
    GCase g = make(s, c, true);
    if (s.chance(1, 2)) {
        std::vector<int> p(g.in.cols.size());
        std::iota(p.begin(), p.end(), 1);
        s.shuffle(p);
        std::vector<double> u(g.u.size(), 0);
        g.rc = red_costs(g.in, g.u);  // scores from the old costs, removal on the new ones
        for (size_t j = 0; j < p.size(); ++j) g.in.costs[j] = p[j] * 0.5;
        gen::compute_exact(g.in);
        if (!g.in.exact) throw pbt::Discard{};
    }
    Instance inst = build(g.in);
    auto     seq  = g.start;
    call(g, inst, seq, LOWEST, 0, true, false);
    auto e = gen::cover_error(g.in, seq);
    if (!e.empty()) c.fail("selection: " + e);
    RefRed ref = reference(g.in, seq);
    auto   sol = g.start;
    double cost = call(g, inst, sol, 0, 0, false, false);
    e = gen::cover_error(g.in, sol);
    if (!e.empty()) c.fail("result: " + e + " " + gen::show(sol) + " from selection " + gen::show(seq));
    for (int j : sol) c.check(std::count(seq.begin(), seq.end(), j) == 1, "column %d was not selected", j);
    c.check(gen::cost_of(g.in, sol) == cost, "returned %.9g, columns cost %.9g", cost, gen::cost_of(g.in, sol));
    if (!ref.ambiguous) c.check(cost == ref.best, "result costs %.9g, the cheapest reduction of the selection %.9g", cost, ref.best);
    size_t nred = droppable(g.in, seq).size();
    c.cls(nred == 0 ? "no redundant column" : nred <= 10 ? "1-10 redundant columns" : "more than 10 redundant columns");
    c.nontrivial(nred >= 2);
}
PBT_MAIN
