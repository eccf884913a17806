// Differently compiled configurations of the library against each other (C07, C08).
// Each configuration is a shared object <this program>.<name>.so with one C entry point.
#include "variants.hpp"

static void req(pbt::Ctx& c, bool ok, std::string const& m) { c.check(ok, "%s", m.c_str()); }

static bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static std::string diff(Res const& a, Res const& b) {
    if (a.status != b.status) return pbt::strf("one ends normally, the other by exception: %s", (a.status ? a : b).msg.c_str());
    if (a.status) return "";
    if (a.sol != b.sol) return "solutions " + gen::show(a.sol) + " and " + gen::show(b.sol);
    if (!same_bits(a.cost, b.cost)) return pbt::strf("costs %.9g and %.9g", a.cost, b.cost);
    if (!same_bits(a.lb, b.lb)) return pbt::strf("bounds %.9g and %.9g", a.lb, b.lb);
    if (a.mults.size() != b.mults.size()) return "numbers of multipliers";
    for (size_t k = 0; k < a.mults.size(); ++k)
        if (!same_bits(a.mults[k], b.mults[k])) return pbt::strf("multipliers %zu: %.9g and %.9g", k, a.mults[k], b.mults[k]);
    return "";
}

// A feasible warm start: per row in random order a random covering column.
static std::vector<int> warm_start(pbt::Src& s, Inst const& in) {
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0);
    std::vector<int>  sol;
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            std::vector<int> cand;
            for (int j = 0; j < in.ncols(); ++j)
                if (std::count(in.cols[static_cast<size_t>(j)].begin(), in.cols[static_cast<size_t>(j)].end(), i)) cand.push_back(j);
            int j = cand[s.below(cand.size())];
            sol.push_back(j);
            for (int r : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(r)] = 1;
        }
    s.shuffle(sol);
    return sol;
}
static Params params(pbt::Src& s, int nrows) {
    auto p = gen::gen_params(s, false, nrows > 40 ? 12 : 40);
    if (s.chance(1, 15)) p.time_limit = -2;  // a limit that is over from the start
    return p;
}

// ---- C07 ------------------------------------------------------------------------------------
PBT_PROP(checked) {
    Job k;
    static const int szr[] = {5, 12, 14, 40, 90}, szc[] = {12, 40, 120, 120, 300};
    size_t z = s.below(5);
    k.in     = gen::gen_inst(s, {szr[z], szc[z]});
    if (s.chance(1, 8))  // costs far from the usual magnitude
        for (double& v : k.in.costs) v = gen::tofloat(v * s.pick({1e-6, 1e6, 1e12, 1e18}));
    k.p = params(s, k.in.nrows);
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    if (s.chance(1, 6)) k.verbose = s.below(6);
    c.describe(gen::describe(k.p) + pbt::strf(" verbose=%d", static_cast<int>(k.verbose)) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    Res chk = solve("chk", k);
    req(c, chk.status == 0, "the checked build stopped: " + chk.msg);
    Res rel = solve("rel", k);
    auto d = diff(rel, chk);
    req(c, d.empty(), "release and checked build differ: " + d);
    if (k.in.nrows >= 3 && rel.sol.size() >= 2) c.nontrivial();
    if (rel.sol.size() >= 8) c.cls("solution of 8 columns or more");
}

// ---- C08 ------------------------------------------------------------------------------------
struct Cfg {
    const char* name;
    int         max_rows, max_cols;
};
static const Cfg cfgs[] = {{"i16u8", 255, 32767},  {"u8i8", 127, 255},      {"i8u16", 65535, 127}, {"u64i64", 1 << 30, 1 << 30},
                           {"i64u64", 1 << 30, 1 << 30}, {"u32i32", 1 << 30, 1 << 30}, {"tag", 32767, 1 << 30}, {"tagsmall", 255, 65535},
                           {"u8u8", 255, 255},     {"i8i8", 127, 127}};

static Inst sized(pbt::Src& s, pbt::Ctx& c, int max_rows, int max_cols) {
    static const int szr[] = {6, 14, 40, 90, 127}, szc[] = {12, 60, 120, 200, 250};
    size_t z  = s.below(5);
    Inst   in = gen::gen_inst(s, {std::min(szr[z], max_rows), std::min(szc[z], max_cols)});
    // make_feasible never adds columns beyond the limit, but some families round sizes up
    if (in.nrows > max_rows || in.ncols() > max_cols) throw pbt::Discard{};
    auto pad_cols = [&](int to) {
        while (in.ncols() < to) {
            auto v = in.cols[s.below(in.cols.size())];
            if (v.size() > 1 && s.chance(1, 2)) v.pop_back();
            in.cols.push_back(v);
            in.costs.push_back(in.costs[s.below(in.costs.size())]);
        }
    };
    auto pad_rows = [&](int to) {
        for (; in.nrows < to; ++in.nrows) {
            size_t n = 1 + s.below(3);
            std::set<size_t> at;
            for (size_t q = 0; q < n; ++q) at.insert(s.below(in.cols.size()));
            for (size_t j : at) in.cols[j].push_back(in.nrows);
        }
    };
    bool known = false;
    if (s.chance(1, 3) && max_rows <= 255) { pad_rows(max_rows - static_cast<int>(s.below(3))); known = true; }
    if (s.chance(1, 3) && max_cols <= 255) { pad_cols(max_cols - static_cast<int>(s.below(3))); known = true; }
    if (known) { in.known_opt = -1; c.cls("near the type's limit"); }
    gen::compute_exact(in);
    return in;
}
PBT_PROP(indexes) {
    Cfg const& g = cfgs[s.below(sizeof cfgs / sizeof *cfgs)];
    Job        k;
    k.in = sized(s, c, std::min(g.max_rows, 32767), g.max_cols);
    k.p  = params(s, k.in.nrows);
    if (k.in.nrows > 100) {  // keeps sanitized solves near the limits of the types short
        k.p.min_fixing = std::max(k.p.min_fixing, 0.3);
        k.p.alpha      = std::max(k.p.alpha, 1.3);
    }
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    c.describe(std::string("types ") + g.name + " " + gen::describe(k.p) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls(std::string("types ") + g.name);
    Res a = solve("ref", k), b = solve(g.name, k);
    req(c, b.status == 0, std::string(g.name) + " ended by exception: " + b.msg);
    auto d = diff(a, b);
    req(c, d.empty(), std::string("int32/int16 and ") + g.name + " differ: " + d);
    if (k.in.nrows >= 3 && a.sol.size() >= 2) c.nontrivial();
}
// Sizes at the limits of the 16-bit types, against a configuration with wide types.
PBT_PROP(large) {
    int         kind = static_cast<int>(s.below(3));
    std::string name = kind == 0 ? "i16u8" : kind == 1 ? "tagsmall" : s.chance(1, 2) ? "ref" : "tag";
    int         off  = static_cast<int>(s.below(3));
    Job         k;
    k.in.fam   = "large";
    k.in.cmode = "int1-8";
    uint64_t seed = s.bits64();
    auto     rnd  = [&](uint64_t n) { return (seed = pbt::mix64(seed)) % n; };
    int      n    = kind == 0 ? 32767 - off : kind == 1 ? 65535 - off : static_cast<int>(s.range(40, 400));
    k.in.nrows    = kind == 2 ? 32767 - off : static_cast<int>(s.range(2, kind == 0 ? 255 : 60));
    k.in.cols.resize(static_cast<size_t>(n));
    if (kind == 2) {
        for (int i = 0; i < k.in.nrows; ++i)
            for (size_t q = 1 + rnd(3); q > 0; --q) {
                auto& v = k.in.cols[rnd(static_cast<uint64_t>(n))];
                if (v.empty() || v.back() != i) v.push_back(i);
            }
        k.p.time_limit = -2;
    } else {
        size_t len = 1 + rnd(6);
        for (auto& v : k.in.cols)
            for (size_t q = 0; q < len; ++q) {
                int i = static_cast<int>(rnd(static_cast<uint64_t>(k.in.nrows)));
                if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i);
            }
        for (int i = 0; i < k.in.nrows; ++i) {  // the last columns are needed
            auto& v = k.in.cols[static_cast<size_t>(n - 1 - i % 3)];
            if (std::find(v.begin(), v.end(), i) == v.end() && rnd(4) == 0) v.push_back(i);
        }
        std::vector<char> cov(static_cast<size_t>(k.in.nrows), 0);
        for (auto& v : k.in.cols) for (int i : v) cov[static_cast<size_t>(i)] = 1;
        for (int i = 0; i < k.in.nrows; ++i) if (!cov[static_cast<size_t>(i)]) k.in.cols.back().push_back(i);
        k.p.heur_iters = s.below(6);
        if (s.chance(1, 2)) k.p.time_limit = -2;
    }
    for (size_t j = 0; j < k.in.cols.size(); ++j) k.in.costs.push_back(static_cast<double>(1 + rnd(8)) + static_cast<double>(k.in.cols[j].size()));
    c.describe("types " + name + " " + gen::describe(k.p) + pbt::strf(" seed %llu ", static_cast<unsigned long long>(seed)) + gen::describe(k.in));
    c.cls("types " + name);
    Res a = solve("u32i32", k), b = solve(name, k);
    req(c, b.status == 0, name + " ended by exception: " + b.msg);
    auto d = diff(a, b);
    req(c, d.empty(), "uint32/int32 and " + name + " differ: " + d);
    auto e = gen::cover_error(k.in, b.sol);
    req(c, e.empty(), name + ": " + e);
    c.nontrivial();
}
PBT_PROP(checked_types) {
    static const Cfg cc[] = {{"chki8i8", 127, 127}, {"chki8u16", 65535, 127}, {"chktag", 255, 65535}, {"chkdouble", 32767, 1 << 30}};
    Cfg const&       g    = cc[s.below(4)];
    Job              k;
    k.in = sized(s, c, std::min(g.max_rows, 32767), g.max_cols);
    k.p  = params(s, k.in.nrows);
    if (k.in.nrows > 100) {  // keeps sanitized solves near the limits of the types short
        k.p.min_fixing = std::max(k.p.min_fixing, 0.3);
        k.p.alpha      = std::max(k.p.alpha, 1.3);
    }
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    c.describe(std::string("types ") + g.name + " " + gen::describe(k.p) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls(std::string("types ") + g.name);
    Res b = solve(g.name, k);
    req(c, b.status == 0, "the checked build with other types stopped: " + b.msg);
    if (std::string(g.name) != "chkdouble") {
        auto d = diff(solve("rel", k), b);
        req(c, d.empty(), std::string("int32/int16 and ") + g.name + " differ: " + d);
    } else {
        auto e = gen::cover_error(k.in, b.sol);
        req(c, e.empty(), std::string(g.name) + ": " + e);
    }
    if (k.in.nrows >= 3 && b.sol.size() >= 2) c.nontrivial();
}
static const char* reals[] = {"double", "longdouble", "tagdouble"};
PBT_PROP(reals) {
    std::string name = reals[s.below(3)];
    Job         k;
    static const int szr[] = {5, 12, 14, 40}, szc[] = {12, 40, 120, 120};
    size_t z = s.below(4);
    k.in     = gen::gen_inst(s, {szr[z], szc[z]}, z == 3 && s.chance(1, 2) ? 4 : -1);
    k.p      = params(s, k.in.nrows);
    if (s.chance(1, 4)) k.warm = warm_start(s, k.in);
    c.describe("real " + name + " " + gen::describe(k.p) + " warm=" + gen::show(k.warm) + " " + gen::describe(k.in));
    c.cls("real " + name);
    Res r = solve(name, k);
    req(c, r.status == 0, name + " ended by exception: " + r.msg);
    auto e = gen::cover_error(k.in, r.sol);
    req(c, e.empty(), name + ": " + e);
    double cost = gen::cost_of(k.in, r.sol);
    req(c, std::fabs(r.cost - cost) <= 1e-9 * (1 + std::fabs(cost)), name + pbt::strf(": cost %.17g instead of %.17g", r.cost, cost));
    if (!k.warm.empty()) req(c, r.cost <= gen::cost_of(k.in, k.warm) * (1 + 1e-12), name + ": worse than the warm start");
    req(c, r.mults.size() == static_cast<size_t>(k.in.nrows), name + ": number of multipliers");
    for (double u : r.mults) req(c, std::isfinite(u) && u >= 0, name + pbt::strf(": multiplier %g", u));
    if (gen::has_exact(k.in)) {
        double opt = gen::exact_opt(k.in);
        req(c, r.lb <= opt + 1e-9 * (1 + opt), name + pbt::strf(": bound %.17g above the optimum %.17g", r.lb, opt));
        req(c, r.cost >= opt - 1e-9 * (1 + opt), name + ": cost below the optimum");
        c.cls("optimum known");
    }
    if (k.in.nrows >= 3 && r.sol.size() >= 2) c.nontrivial();
}
// Large instances, where several columns are fixed at a time and covers have dozens of redundant columns.
static Job big_job(pbt::Src& s, pbt::Ctx& c, int cut_rows, int full_rows, std::string const& what) {
    Job  k;
    bool cut = s.chance(1, 2);
    k.in = gen::gen_big(s, cut ? cut_rows : full_rows);
    k.p.seed       = s.below(100);
    k.p.heur_iters = s.below(cut ? 12 : 4);
    k.p.epsilon    = s.pick({0.999, 0.01});
    k.p.min_fixing = s.pick({0.3, 0.6, 0.95});
    if (cut) k.p.time_limit = -2;
    c.describe(what + gen::describe(k.p) + " " + gen::describe(k.in));
    c.cls("family " + k.in.fam);
    c.cls(cut ? "stopped at once" : "full solve");
    return k;
}
PBT_PROP(big_checked) {
    Job k   = big_job(s, c, 700, 250, "");
    Res chk = solve("chk", k);
    req(c, chk.status == 0, "the checked build stopped: " + chk.msg);
    Res  rel = solve("rel", k);
    auto d   = diff(rel, chk);
    req(c, d.empty(), "release and checked build differ: " + d);
    if (k.in.nrows >= 60 && rel.sol.size() >= 8) c.nontrivial();
}
PBT_PROP(big_types) {
    Cfg const& g = cfgs[s.below(sizeof cfgs / sizeof *cfgs)];
    Job        k = big_job(s, c, std::min(1200, g.max_rows), std::min(500, g.max_rows), std::string("types ") + g.name + " ");
    if (k.in.ncols() > g.max_cols) throw pbt::Discard{};
    c.cls(std::string("types ") + g.name);
    Res a = solve("ref", k), b = solve(g.name, k);
    req(c, b.status == 0, std::string(g.name) + " ended by exception: " + b.msg);
    auto d = diff(a, b);
    req(c, d.empty(), std::string("int32/int16 and ") + g.name + " differ: " + d);
    if (k.in.nrows >= 60 && a.sol.size() >= 8) c.nontrivial();
}
PBT_MAIN
