// Reproducibility (C05): same input, same result, whatever happened before.
#include <malloc.h>

#include "comp.hpp"
#include "algorithms/ThreePhase.hpp"
#include "fixing/ColFixing.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/Subgradient.hpp"
using namespace cftx;
using namespace comp;
using gen::Inst;
using gen::Params;

static std::string diff(CftResult const& a, CftResult const& b) {
    if (a.sol.idxs != b.sol.idxs) return "solutions differ: " + gen::show(ints(a.sol.idxs)) + " and " + gen::show(ints(b.sol.idxs));
    if (!(a.sol.cost == b.sol.cost)) return pbt::strf("costs differ: %.9g and %.9g", static_cast<double>(a.sol.cost), static_cast<double>(b.sol.cost));
    if (!(a.dual.lb == b.dual.lb)) return pbt::strf("bounds differ: %.9g and %.9g", static_cast<double>(a.dual.lb), static_cast<double>(b.dual.lb));
    if (a.dual.mults != b.dual.mults) return "multipliers differ";
    return "";
}
// Leaves different garbage in freed heap and stack memory.
static void scribble(int byte) {
    mallopt(M_PERTURB, byte);
    volatile char buf[20000];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = static_cast<char>(byte);
    std::vector<std::vector<char>> v;
    for (size_t n = 16; n < 40000; n += n / 2) v.emplace_back(n, static_cast<char>(byte));
}
static gen::Size any_size(pbt::Src& s) {
    switch (s.below(6)) {
        case 0: return {4, 10};
        case 1: case 2: return {14, 40};
        case 3: return {14, 120};
        case 4: return {40, 120};
        default: return {80, 250};
    }
}
struct Item {
    Inst             in;
    Params           p;
    std::vector<int> warm;
};
static Item item(pbt::Src& s) {
    Item it;
    auto z = any_size(s);
    it.in  = gen::gen_inst(s, z);
    it.p   = gen::gen_params(s, false, it.in.nrows > 20 ? 15 : 40);
    if (s.chance(1, 5)) {  // warm start: everything
        for (int j = 0; j < it.in.ncols(); ++j) it.warm.push_back(j);
    }
    return it;
}
static CftResult solve(Item const& it, uint64_t verbose) {
    Environment env;
    set_env(it.p, env);
    env.verbose   = verbose;
    Instance inst = build(it.in);
    if (it.warm.empty()) return run(env, inst);
    Solution ws;
    for (int j : it.warm) ws.idxs.push_back(static_cast<cidx_t>(j));
    ws.cost = static_cast<real_t>(gen::cost_of(it.in, it.warm));
    return run(env, inst, ws);
}

PBT_PROP(solves) {  // cft::run repeated in one process, other solves in between, any verbosity
    scribble(static_cast<int>(s.below(255)));
    Item a = item(s);
    c.describe(gen::describe(a.p) + " " + gen::describe(a.in));
    auto r1 = solve(a, 0);
    int  n  = static_cast<int>(s.below(3));
    for (int k = 0; k < n; ++k) solve(item(s), s.below(6));
    scribble(static_cast<int>(1 + s.below(255)));
    uint64_t v  = s.below(7);
    auto     r2 = solve(a, v);
    auto     d  = diff(r1, r2);
    if (!d.empty()) c.fail(pbt::strf("after %d other solves, verbosity %d: ", n, static_cast<int>(v)) + d);
    c.cls(pbt::strf("verbosity %d", static_cast<int>(v)));
    c.cls(pbt::strf("%d solves in between", n));
    c.nontrivial(a.in.nrows >= 3 && r1.sol.idxs.size() >= 2);
}

PBT_PROP(env_copies) {  // one Environment used through copies, the original instance untouched
    Item        a = item(s);
    Environment env;
    set_env(a.p, env);
    Instance inst = build(a.in), before = inst;
    c.describe(gen::describe(a.p) + " " + gen::describe(a.in));
    Environment e1 = env, e2 = env;
    auto        r1 = run(e1, inst);
    bool        same = inst.cols.idxs == before.cols.idxs && inst.cols.begs == before.cols.begs && inst.rows == before.rows && inst.costs == before.costs;
    c.require(same, "the solver changed the caller's instance");
    e2.verbose = 5;
    auto r2    = run(e2, inst);
    auto d     = diff(r1, r2);
    if (!d.empty()) c.fail(d);
    // without columns beyond those needed nothing changes when the generator state is the same
    c.nontrivial(a.in.nrows >= 3 && r1.sol.idxs.size() >= 2);
}

PBT_PROP(threephase) {  // one ThreePhase object over a history against fresh objects
    scribble(static_cast<int>(s.below(255)));
    ThreePhase  reused;
    int         n = static_cast<int>(s.range(1, 4));
    std::string log;
    for (int k = 0; k < n; ++k) {
        Item a = item(s);
        log += pbt::strf("[%d] ", k) + gen::describe(a.p) + " " + gen::describe(a.in) + "\n";
        c.describe(log);
        Environment e1, e2;
        set_env(a.p, e1);
        set_env(a.p, e2);
        e1.verbose = s.below(6);
        Instance   i1 = build(a.in), i2 = i1;
        ThreePhase fresh;
        auto       r1 = reused(e1, i1), r2 = fresh(e2, i2);
        auto       d = diff(r1, r2);
        if (!d.empty()) c.fail(pbt::strf("call %d on a reused object (second: fresh object): ", k) + d);
        c.require(i1.cols.idxs == i2.cols.idxs && i1.rows == i2.rows && i1.costs == i2.costs, "the residual instances differ");
        if (k) c.nontrivial(a.in.nrows >= 3 && r1.sol.idxs.size() >= 2);
        scribble(static_cast<int>(1 + s.below(255)));
    }
    c.cls(pbt::strf("%d calls on one object", n));
}

PBT_PROP(parts) {  // Greedy, Pricer, Subgradient, ColFixing: reused against fresh
    scribble(static_cast<int>(s.below(255)));
    Greedy      g;
    Pricer      pr;
    Subgradient sg;
    ColFixing   cf;
    InstAndMap  core;
    int         n = static_cast<int>(s.range(2, 6));
    std::string log;
    for (int k = 0; k < n; ++k) {
        Inst in = gen::gen_inst(s, any_size(s));
        auto u  = gen_mults(s, in);
        log += pbt::strf("[%d] ", k) + gen::describe(in) + " mults " + gen::show(u) + "\n";
        c.describe(log);
        Instance inst = build(in);
        auto     ur   = reals(u);
        auto     p    = gen::gen_params(s, false, 20);
        Environment env;
        set_env(p, env);
        switch (s.below(4)) {
            case 0: {
                Greedy              f;
                auto                rc = reals(red_costs(in, u));
                std::vector<cidx_t> s1, s2;
                bool                lim = s.chance(1, 3);
                cidx_t              mx  = static_cast<cidx_t>(lim ? s.range(1, 6) : 1000000);
                real_t              cut = s.chance(1, 3) ? static_cast<real_t>(s.range(0, 200)) : std::numeric_limits<real_t>::max();
                real_t              a = g(inst, ur, rc, s1, cut, mx), b = f(inst, ur, rc, s2, cut, mx);
                c.check(a == b && s1 == s2, "call %d: a reused greedy object returns %.9g, a fresh one %.9g", k, static_cast<double>(a), static_cast<double>(b));
                c.cls("greedy");
                break;
            }
            case 1: {
                Pricer     f;
                InstAndMap fc;
                real_t     a = pr(inst, ur, core), b = f(inst, ur, fc);
                c.check(a == b, "call %d: a reused pricer returns %.9g, a fresh one %.9g", k, static_cast<double>(a), static_cast<double>(b));
                c.check(core.col_map == fc.col_map && core.inst.cols.idxs == fc.inst.cols.idxs && core.inst.rows == fc.inst.rows && core.inst.costs == fc.inst.costs,
                        "call %d: cores differ", k);
                c.cls("pricer");
                break;
            }
            case 2: {
                Subgradient f;
                Pricer      p1, p2;
                Greedy      g2;
                InstAndMap  c1, c2;
                auto        u1 = ur, u2 = ur;
                p1(inst, u1, c1);
                p2(inst, u2, c2);
                real_t s1 = static_cast<real_t>(0.1), s2 = s1;
                real_t cut = static_cast<real_t>(gen::cost_of(in, std::vector<int>{0}) + static_cast<double>(s.range(1, 300)));
                real_t a = sg(env, inst, cut, p1, c1, s1, u1), b = f(env, inst, cut, p2, c2, s2, u2);
                c.check(a == b && s1 == s2 && u1 == u2 && c1.col_map == c2.col_map, "call %d: a reused subgradient object returns %.9g, a fresh one %.9g", k, static_cast<double>(a), static_cast<double>(b));
                Solution b1, b2;
                b1.cost = b2.cost = cut;
                sg.heuristic(env, c1.inst, s1, g, b1, u1);
                f.heuristic(env, c2.inst, s2, g2, b2, u2);
                c.check(b1.cost == b2.cost && b1.idxs == b2.idxs && u1 == u2, "call %d: heuristic phases differ: %.9g on reused objects, %.9g on fresh ones", k, static_cast<double>(b1.cost), static_cast<double>(b2.cost));
                c.cls("subgradient");
                break;
            }
            default: {
                ColFixing  f;
                Greedy     g2;
                FixingData f1, f2;
                make_identity_fixing_data(static_cast<cidx_t>(in.ncols()), static_cast<ridx_t>(in.nrows), f1);
                f2 = f1;
                Instance i1 = inst, i2 = inst;
                auto     u1 = ur, u2 = ur;
                ridx_t   nr = static_cast<ridx_t>(in.nrows);
                while (!i1.rows.empty()) {
                    cf(env, nr, i1, f1, u1, g);
                    f(env, nr, i2, f2, u2, g2);
                    c.check(f1.fixed_cols == f2.fixed_cols && f1.fixed_cost == f2.fixed_cost && u1 == u2 && i1.cols.idxs == i2.cols.idxs, "call %d: fixing on reused objects differs", k);
                    if (f1.fixed_cols.empty()) break;
                }
                c.cls("fixing");
                break;
            }
        }
        scribble(static_cast<int>(1 + s.below(255)));
        c.nontrivial(in.nrows >= 3 && k > 0);
    }
}
PBT_MAIN
