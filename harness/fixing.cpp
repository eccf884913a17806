// Column fixing (C14): random sequences of fixing steps against a set model.
#include "comp.hpp"
#include "fixing/ColFixing.hpp"
#include "fixing/FixingData.hpp"
#include "fixing/fix_columns.hpp"
#include "greedy/Greedy.hpp"
using namespace cftx;
using namespace comp;
using gen::Inst;

struct Model {  // what is left of the original problem
    Inst const&         in;
    std::vector<char>   covered, fixed;
    std::vector<int>    rows, cols;  // original indexes of the remaining rows/columns, in order
    std::vector<int>    fixed_cols;
    explicit Model(Inst const& i)
        : in(i)
        , covered(static_cast<size_t>(i.nrows), 0)
        , fixed(i.cols.size(), 0) {
        for (int r = 0; r < i.nrows; ++r) rows.push_back(r);
        for (int j = 0; j < i.ncols(); ++j) cols.push_back(j);  // empty columns vanish at the first step
    }
    void fix(std::vector<int> const& orig) {
        for (int j : orig) {
            fixed[static_cast<size_t>(j)] = 1;
            fixed_cols.push_back(j);
            for (int i : in.cols[static_cast<size_t>(j)]) covered[static_cast<size_t>(i)] = 1;
        }
        std::vector<int> nr, nc;
        for (int i : rows) if (!covered[static_cast<size_t>(i)]) nr.push_back(i);
        for (int j : cols) {
            bool useful = false;
            for (int i : in.cols[static_cast<size_t>(j)]) useful = useful || !covered[static_cast<size_t>(i)];
            if (!fixed[static_cast<size_t>(j)] && useful) nc.push_back(j);
        }
        rows = nr;
        cols = nc;
    }
};

static void compare(pbt::Ctx& c, Model const& m, Instance const& inst, FixingData const& fx, const char* when) {
    Inst const& in = m.in;
    auto        bad = [&](std::string const& e) { c.fail(std::string(when) + ": " + e + pbt::strf(" (%zu rows, %zu columns should remain)", m.rows.size(), m.cols.size())); };
    if (inst.rows.size() != m.rows.size()) bad(pbt::strf("%zu rows remain", inst.rows.size()));
    if (inst.cols.size() != m.cols.size()) bad(pbt::strf("%zu columns remain", inst.cols.size()));
    if (inst.costs.size() != m.cols.size()) bad(pbt::strf("%zu costs remain", inst.costs.size()));
    if (ints(fx.curr2orig.col_map) != m.cols) bad("column map " + gen::show(ints(fx.curr2orig.col_map)) + " expected " + gen::show(m.cols));
    std::vector<int> rm;
    for (auto i : fx.curr2orig.row_map) rm.push_back(static_cast<int>(i));
    if (rm != m.rows) bad("row map " + gen::show(rm) + " expected " + gen::show(m.rows));
    std::vector<int> pos(static_cast<size_t>(in.nrows), -1);
    for (size_t k = 0; k < m.rows.size(); ++k) pos[static_cast<size_t>(m.rows[k])] = static_cast<int>(k);
    std::vector<std::vector<int>> rowlists(m.rows.size());
    for (size_t k = 0; k < m.cols.size(); ++k) {
        std::vector<int> want, got;
        for (int i : in.cols[static_cast<size_t>(m.cols[k])])
            if (pos[static_cast<size_t>(i)] >= 0) { want.push_back(pos[static_cast<size_t>(i)]); rowlists[static_cast<size_t>(pos[static_cast<size_t>(i)])].push_back(static_cast<int>(k)); }
        for (auto i : inst.cols[k]) got.push_back(static_cast<int>(i));
        if (got != want) bad(pbt::strf("column %zu (original %d) holds ", k, m.cols[k]) + gen::show(got) + " expected " + gen::show(want));
        if (static_cast<double>(inst.costs[k]) != in.costs[static_cast<size_t>(m.cols[k])]) bad(pbt::strf("column %zu (original %d) costs %g", k, m.cols[k], static_cast<double>(inst.costs[k])));
    }
    for (size_t k = 0; k < m.rows.size(); ++k)
        if (ints(inst.rows[k]) != rowlists[k]) bad(pbt::strf("row %zu (original %d) lists ", k, m.rows[k]) + gen::show(ints(inst.rows[k])) + " expected " + gen::show(rowlists[k]));
    auto fc = ints(fx.fixed_cols), fm = m.fixed_cols;
    std::sort(fc.begin(), fc.end());
    std::sort(fm.begin(), fm.end());
    if (fc != fm) bad("fixed columns " + gen::show(fc) + " expected " + gen::show(fm));
    double fcost = gen::cost_of(in, fm), rep = static_cast<double>(fx.fixed_cost);
    if (!(std::fabs(fcost - rep) <= gen::cost_tol(in, fcost))) bad(pbt::strf("fixed cost %.9g expected %.9g", rep, fcost));
}

static Inst make(pbt::Src& s, pbt::Ctx& c) {
    Inst in = gen::gen_inst(s, size_for(s), s.chance(1, 3) ? 10 : -1);
    c.cls("family " + in.fam);
    return in;
}

PBT_PROP(history) {  // fix_columns_and_compute_maps with arbitrary sets
    Inst       in   = make(s, c);
    Instance   inst = build(in);
    FixingData fx;
    IdxsMaps   o2n;
    make_identity_fixing_data(static_cast<cidx_t>(in.ncols()), static_cast<ridx_t>(in.nrows), fx);
    Model       m(in);
    std::string log;
    int         steps = 0, emptied = 0;
    compare(c, m, inst, fx, "start");
    int nsteps = static_cast<int>(s.range(1, 8));
    for (; steps < nsteps && !m.rows.empty(); ++steps) {
        int k = static_cast<int>(s.chance(1, 2) ? 1 : s.skewed(1, std::max(1, static_cast<int>(m.cols.size()) / (s.chance(1, 6) ? 1 : 4))));
        auto sub = gen::rnd_subset(s, static_cast<int>(m.cols.size()), k);
        std::vector<cidx_t> v;
        std::vector<int>    orig;
        for (int x : sub) { v.push_back(static_cast<cidx_t>(x)); orig.push_back(m.cols[static_cast<size_t>(x)]); }
        log += " fix" + gen::show(orig);
        c.describe(log + " " + gen::describe(in));
        auto before_cols = m.cols.size();
        auto before_rows = m.rows;
        auto before_cmap = m.cols;
        m.fix(orig);
        fix_columns_and_compute_maps(v, inst, fx, o2n);
        if (before_cols - orig.size() > m.cols.size()) ++emptied;
        auto w = pbt::strf("after step %d", steps);
        compare(c, m, inst, fx, w.c_str());
        if (!m.rows.empty()) {  // old-to-new maps of this step
            c.check(o2n.col_map.size() == before_cols && o2n.row_map.size() == before_rows.size(), "%s: map sizes", w.c_str());
            size_t nc = 0, nr = 0;
            for (size_t j = 0; j < before_cmap.size(); ++j) {
                bool alive = nc < m.cols.size() && m.cols[nc] == before_cmap[j];
                c.check(alive ? static_cast<size_t>(o2n.col_map[j]) == nc : o2n.col_map[j] == removed_cidx, "%s: column %d maps to %d", w.c_str(), static_cast<int>(j), static_cast<int>(o2n.col_map[j]));
                nc += alive;
            }
            for (size_t i = 0; i < before_rows.size(); ++i) {
                bool alive = nr < m.rows.size() && m.rows[nr] == before_rows[i];
                c.check(alive ? static_cast<size_t>(o2n.row_map[i]) == nr : o2n.row_map[i] == removed_ridx, "%s: row %d maps to %d", w.c_str(), static_cast<int>(i), static_cast<int>(o2n.row_map[i]));
                nr += alive;
            }
        }
    }
    c.cls(pbt::strf("%d steps", steps));
    if (m.rows.empty()) c.cls("everything covered");
    if (emptied) c.cls("columns emptied");
    c.nontrivial(steps >= 2);
}

PBT_PROP(colfixing) {  // the ColFixing step, driven by multipliers
    static ColFixing shared;
    static Greedy    shared_greedy;
    ColFixing        fresh;
    Greedy           fresh_greedy;
    Inst             in   = make(s, c);
    bool             reuse = s.chance(1, 2);
    Instance         inst = build(in);
    FixingData       fx;
    make_identity_fixing_data(static_cast<cidx_t>(in.ncols()), static_cast<ridx_t>(in.nrows), fx);
    Environment env;
    env.verbose = 0;
    Model m(in);
    auto  u = reals(gen_mults(s, in));
    c.describe("mults " + gen::show(u) + " " + gen::describe(in));
    ridx_t orig_nrows = static_cast<ridx_t>(s.chance(1, 4) ? 200 * s.range(1, 6) : in.nrows);
    int    steps = 0, total_neg = 0;
    while (!m.rows.empty() && steps < 12) {
        std::vector<real_t> ub    = u;
        auto                rows0 = m.rows;
        size_t              nfix  = fx.fixed_cols.size();
        for (size_t k = 0; k < m.cols.size(); ++k) {
            double rc = in.costs[static_cast<size_t>(m.cols[k])];
            for (auto i : inst.cols[k]) rc -= static_cast<double>(u[static_cast<size_t>(i)]);
            total_neg += rc < -0.001;
        }
        (reuse ? shared : fresh)(env, orig_nrows, inst, fx, u, reuse ? shared_greedy : fresh_greedy);
        ++steps;
        auto w = pbt::strf("after step %d", steps);
        c.check(fx.fixed_cols.size() > nfix, "%s: no column was fixed", w.c_str());
        std::vector<int> orig;
        for (size_t k = nfix; k < fx.fixed_cols.size(); ++k) {
            int j = static_cast<int>(fx.fixed_cols[k]);
            if (!std::count(m.cols.begin(), m.cols.end(), j)) c.fail(pbt::strf("%s: column %d is fixed but was not in the instance", w.c_str(), j));
            orig.push_back(j);
        }
        m.fix(orig);
        compare(c, m, inst, fx, w.c_str());
        c.check(u.size() == m.rows.size(), "%s: %d multipliers for %d rows", w.c_str(), static_cast<int>(u.size()), static_cast<int>(m.rows.size()));
        size_t n = 0;
        for (size_t k = 0; k < rows0.size() && n < m.rows.size(); ++k)
            if (m.rows[n] == rows0[k]) {
                c.check(u[n] == ub[k], "%s: row %d had multiplier %g, now %g", w.c_str(), rows0[k], static_cast<double>(ub[k]), static_cast<double>(u[n]));
                ++n;
            }
        if (s.chance(1, 2)) for (auto& x : u) x *= static_cast<real_t>(s.pick({0.5, 0.9, 1.1, 2.0, 1.0}));
    }
    if (m.rows.empty()) {  // the fixed columns form a cover
        auto e = gen::cover_error(in, fx.fixed_cols);
        if (!e.empty()) c.fail("fixed columns: " + e);
        c.cls("fixed down to nothing");
    }
    c.cls(total_neg ? "negative reduced costs" : "no negative reduced cost");
    if (reuse) c.cls("reused objects");
    c.num("fixing steps", steps);
    c.nontrivial(steps >= 2);
}

// Which columns a fixing step takes (C32): data on a grid of 1/4096, so that reduced costs are exact.
PBT_PROP(rule) {
    static ColFixing shared;
    static Greedy    shared_greedy;
    ColFixing        fresh;
    Greedy           fresh_greedy;
    gen::Size        z  = s.pick({gen::Size{6, 14}, gen::Size{16, 40}, gen::Size{40, 100}});
    Inst             in = gen::gen_inst(s, z);
    bool             fine = s.chance(1, 4);
    for (auto& x : in.costs) x = fine ? static_cast<double>(s.below(64 * 8)) / 8 : static_cast<double>(s.below(s.chance(1, 2) ? 4 : 32));
    size_t              n = static_cast<size_t>(in.nrows);
    std::vector<double> u(n, 0.0);
    int                 style = static_cast<int>(s.below(6));
    for (auto& x : u) x = style == 0 || style > 3 ? 0.0 : style == 1 ? static_cast<double>(s.below(4096 * 4)) / 4096 : static_cast<double>(s.below(5));
    int pulls = static_cast<int>(s.chance(1, 2) ? s.below(5) : s.skewed(0, std::max(1, in.ncols())));
    auto rc_of = [&](int j) {
        double rc = in.costs[static_cast<size_t>(j)];
        for (int i : in.cols[static_cast<size_t>(j)]) rc -= u[static_cast<size_t>(i)];
        return rc;
    };
    for (int k = 0; k < pulls; ++k) {  // pull some columns to a chosen reduced cost
        int  j    = static_cast<int>(s.below(in.cols.size()));
        auto& col = in.cols[static_cast<size_t>(j)];
        if (col.empty()) continue;
        double t = -static_cast<double>(s.pick({0, 1, 2, 3, 4, 5, 6, 8, 32, 512, 4096, 20480})) / 4096;
        auto   i = static_cast<size_t>(col[s.below(col.size())]);
        double v = u[i] + rc_of(j) - t;
        if (v >= 0 && v < 256) u[i] = v;
    }
    int  orig_nrows = s.chance(1, 3) ? static_cast<int>(200 * s.range(1, 8) + s.range(-1, 1)) : in.nrows;
    bool reuse      = s.chance(1, 2);
    c.describe(pbt::strf("orig_nrows %d%s mults ", orig_nrows, reuse ? " reused" : "") + gen::show(u) + " " + gen::describe(in));
    Instance   inst = build(in), before = inst;
    FixingData fx;
    make_identity_fixing_data(static_cast<cidx_t>(in.ncols()), static_cast<ridx_t>(in.nrows), fx);
    Environment env;
    env.verbose = 0;
    auto mults  = reals(u);
    (reuse ? shared : fresh)(env, static_cast<ridx_t>(orig_nrows), inst, fx, mults, reuse ? shared_greedy : fresh_greedy);
    // reference: attractive columns that share no row with another one ...
    std::vector<int>    attract, times(n, 0);
    std::vector<cidx_t> want;
    std::vector<real_t> rcs;
    for (int j = 0; j < in.ncols(); ++j) {
        rcs.push_back(static_cast<real_t>(rc_of(j)));
        if (rc_of(j) < -0.001) {
            attract.push_back(j);
            for (int i : in.cols[static_cast<size_t>(j)]) ++times[static_cast<size_t>(i)];
        }
    }
    std::vector<char> cov(n, 0);
    for (int j : attract) {
        bool alone = true;
        for (int i : in.cols[static_cast<size_t>(j)]) alone = alone && times[static_cast<size_t>(i)] == 1;
        if (!alone) continue;
        want.push_back(static_cast<cidx_t>(j));
        for (int i : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(i)] = 1;
    }
    // ... and the greedy choice of one column for every 200 original rows, at least one
    size_t na = want.size(), extra = static_cast<size_t>(std::max(1, orig_nrows / 200));
    bool   all = std::count(cov.begin(), cov.end(), 0) == 0;
    if (!all && na < in.cols.size()) {
        Greedy g;
        auto   um    = reals(u);
        size_t limit = std::min(na + extra, in.cols.size());
        g(before, um, rcs, want, limits<real_t>::max(), static_cast<cidx_t>(limit));
    }
    auto got = ints(fx.fixed_cols), exp = ints(want);
    std::sort(got.begin(), got.end());
    std::sort(exp.begin(), exp.end());
    if (got != exp)
        c.fail("fixed " + gen::show(got) + ", expected " + gen::show(exp) + pbt::strf(" (%zu not overlapping, then up to %zu by greedy)", na, extra));
    c.cls(na == 0 ? "none attractive alone" : na == attract.size() ? "no overlap" : "some overlap");
    if (extra > 1) c.cls("several greedy choices");
    if (all) c.cls("all covered without greedy");
    c.nontrivial(attract.size() >= 2 && in.ncols() > 5);
}
PBT_MAIN
