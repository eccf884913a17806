// Progress output against the solve it describes (C33), and solves against replays of their parts (C31, C32, C34, C35).
#include "solvex.hpp"
#include "iox.hpp"
#include "algorithms/ThreePhase.hpp"
#include <array>
using namespace cftx;

template <typename F>
static std::string captured(F f) {
    iox::MemFile mf;
    fflush(stdout);
    int old = dup(1);
    dup2(mf.fd, 1);
    auto restore = [&] { fflush(stdout); dup2(old, 1); close(old); };
    try { f(); } catch (...) { restore(); throw; }
    restore();
    return mf.get();
}

static std::vector<std::string> lines_of(std::string const& t) {  // without blank lines, times masked
    std::vector<std::string> r;
    std::stringstream        in(t);
    for (std::string l; std::getline(in, l);) {
        std::string o;
        for (size_t k = 0; k < l.size();) {
            size_t e = k;
            while (e < l.size() && (std::isdigit(static_cast<unsigned char>(l[e])) || l[e] == '.')) ++e;
            if (e > k && e < l.size() && l[e] == 's' && (e + 1 == l.size() || !std::isalnum(static_cast<unsigned char>(l[e + 1])))) { o += "TIME"; k = e + 1; }
            else { size_t n = std::max<size_t>(1, e - k); o += l.substr(k, n); k += n; }
        }
        while (!o.empty() && o.back() == ' ') o.pop_back();
        if (!o.empty()) r.push_back(o);
    }
    return r;
}

static bool close_to(double a, double b, double scale) { return std::fabs(a - b) <= 0.0101 + 3e-5 * (std::fabs(scale) + std::fabs(a) + std::fabs(b)); }
static bool starts(std::string const& l, const char* p) { return l.compare(0, strlen(p), p) == 0; }
// k-th number of a line
static bool num(std::string const& l, size_t after, double& v) {
    const char* p = l.c_str() + std::min(after, l.size());
    while (*p && !(std::isdigit(static_cast<unsigned char>(*p)) || (*p == '-' && std::isdigit(static_cast<unsigned char>(p[1]))) || starts(p, "inf") || starts(p, "nan") || starts(p, "-inf") || starts(p, "-nan"))) ++p;
    if (!*p) return false;
    v = strtod(p, nullptr);
    return true;
}
static bool field(std::string const& l, const char* key, double& v) {
    size_t q = l.find(key);
    return q != std::string::npos && num(l, q + strlen(key), v);
}

PBT_PROP(progress) {
    Inst   in = gen::gen_inst(s, s.chance(1, 2) ? gen::Size{60, 160} : size_for(s));
    Params p  = gen::gen_params(s, false, in.nrows > 20 ? 12 : 30);
    if (s.chance(1, 2)) {
        p.heur_iters = s.below(4);
        p.beta       = s.pick({0.0, 1.0, 1.2});
        p.min_fixing = s.pick({0.3, 0.2, 0.5});
        p.alpha      = s.pick({1.1, 1.5});
    }
    std::vector<int> warm;
    if (s.chance(1, 4)) warm = warm_start(s, in);
    uint64_t v = s.below(5);
    c.describe(pbt::strf("verbosity %d ", static_cast<int>(v)) + gen::describe(p) + " warm=" + gen::show(warm) + " " + gen::describe(in));
    Instance inst = build(in);
    CftResult res;
    bool      first = true;
    auto go = [&](uint64_t level) {
        CftResult   r;
        std::string t = captured([&] {
            Environment env;
            set_env(p, env);
            env.verbose = level;
            Solution ws;
            for (int j : warm) ws.idxs.push_back(static_cast<cidx_t>(j));
            ws.cost = static_cast<real_t>(gen::cost_of(in, warm));
            r       = warm.empty() ? run(env, inst) : run(env, inst, ws);
        });
        if (!first && !(r.sol.idxs == res.sol.idxs && r.sol.cost == res.sol.cost && r.dual.lb == res.dual.lb && r.dual.mults == res.dual.mults))
            c.fail(pbt::strf("another result with verbosity %d", static_cast<int>(level)));
        res   = r;
        first = false;
        return lines_of(t);
    };
    auto full = go(5), part = go(v), next = go(v + 1);
    if (v == 0 && !part.empty()) c.fail("output at verbosity 0: " + part[0]);
    auto within = [&](std::vector<std::string> const& a, std::vector<std::string> const& b, int la, int lb) {
        size_t k = 0;
        for (auto const& x : b) if (k < a.size() && a[k] == x) ++k;
        if (k < a.size()) c.fail(pbt::strf("a line of verbosity %d is missing, or out of order, at %d: ", la, lb) + a[k]);
    };
    within(part, next, static_cast<int>(v), static_cast<int>(v) + 1);
    within(next, full, static_cast<int>(v) + 1, 5);

    double eps = static_cast<double>(static_cast<float>(p.epsilon)), wc = gen::cost_of(in, warm);
    double lb = static_cast<double>(res.dual.lb), cost = static_cast<double>(res.sol.cost);
    // State of the walk: values as far as the output tells them.
    double best = warm.empty() ? 1e300 : wc, fixed0 = 0, free0 = 100;    // refinement: best cover, fixed cost, free rows in percent
    double ub = 0, pbest = 1e300, pfixed = 0, prows = 1e300, pcols = 1e300, imp = -1, maxlb = -1e300, clb = -1e300;
    double scale = std::max(cost, wc);
    for (double x : in.costs) scale = std::max(scale, x);
    int    phase = 0, iter = -1, rounds = 0, improved = 0, starts_seen = 0;
    bool   in_sub = false, in_iter = false, phase_open = false;
    size_t k = 0;
    auto   bad = [&](std::string const& m) { c.fail(m + pbt::strf(" [line %zu of verbosity 5: ", k + 1) + full[k] + "]"); };
    auto   close_block = [&] {  // what the iteration's heuristic found
        if (imp >= 0) pbest = std::min(pbest, imp + pfixed);
        imp = -1;
    };
    for (k = 0; k < full.size(); ++k) {
        std::string const& l = full[k];
        double             a, b, d;
        if (starts(l, "3PHS> Three-phase iteration") && num(l, 27, a)) {
            if (!phase_open) { iter = -1; pbest = 1e300; pfixed = 0; prows = free0 / 100 * in.nrows; pcols = 1e300; phase_open = true; clb = -1e300; }
            if (a != iter + 1) bad("iteration number");
            ++iter;
            in_iter = true;
            if (iter > 0 && clb > -1e299 && clb > pbest - eps && !close_to(clb, pbest - eps, scale)) bad(pbt::strf("goes on although the bound %.2f meets the best cost %.2f", clb, pbest));
        } else if (starts(l, "SUBG> Subgradient start")) {
            if (!field(l, "UB", a) || !field(l, "cutoff", b)) continue;
            if (!close_to(b, a - eps, scale)) bad(pbt::strf("cutoff should be %.2f", a - eps));
            if (iter > 0 && !close_to(a, pbest - pfixed, scale)) bad(pbt::strf("upper bound should be %.2f", pbest - pfixed));
            ub = a;
            if (iter == 0) pbest = a;
            in_sub = true;
            ++starts_seen;
        } else if (in_sub && starts(l, "SUBG>") && field(l, " LB:", a) && field(l, "Core LB:", b)) {
            if (phase == 0 && iter == 0) maxlb = std::max(maxlb, a);
        } else if (starts(l, "SUBG> Subgradient ended")) {
            in_sub = false;
            if (phase == 0 && iter == 0 && maxlb > -1e299 && lb > -1e30 && !close_to(maxlb, lb, scale)) bad(pbt::strf("the first phase's best bound was %.2f, the result says %.6g", maxlb, lb));
        } else if (starts(l, "HEUR>") && field(l, "Improved solution", a)) {
            if (a > (imp >= 0 ? imp : ub) + 0.0101 + 3e-5 * scale) bad("an improvement that costs more");
            imp = a;
            ++improved;
        } else if (starts(l, "CFIX> Fixing") && num(l, 12, a)) {
            if (sscanf(l.c_str(), "CFIX> Fixing %lf columns (%lf + %lf)", &a, &b, &d) == 3 && (a != b + d || a < 1 || b < 0)) bad("column counts do not add up");
            close_block();
        } else if (starts(l, "3PHS>") && field(l, "Remaining rows:", a)) {
            if (a > prows + 0.5 + (iter == 0 ? 0.006 * in.nrows : 0) || (iter > 0 && a >= prows) || a < 0) bad(pbt::strf("there were %.1f rows", prows));
            prows = a;
        } else if (starts(l, "3PHS>") && field(l, "Remaining columns:", a)) {
            if (a >= std::min<double>(pcols, in.ncols() + 0.5) && pcols < 1e299) bad(pbt::strf("there were %.0f columns", pcols));
            pcols = a;
        } else if (starts(l, "3PHS>") && field(l, "Core instance cols:", a)) {
            if (prows > 0 && a > pcols) bad(pbt::strf("the instance has %.0f", pcols));
        } else if (starts(l, "3PHS>") && field(l, "Fixed cost:", a)) {
            if (a < pfixed - 0.0101 - 3e-5 * scale) bad(pbt::strf("the fixed cost was %.2f", pfixed));
            pfixed = a;
        } else if (starts(l, "3PHS>") && field(l, "Current LB:", a)) {
            clb     = a;
            in_iter = false;
        } else if (starts(l, "3PHS> Best solution") && l.find("time") == std::string::npos && field(l, "Best solution:", a)) {
            if (!close_to(a, pbest, scale)) bad(pbt::strf("the best solution should cost %.2f", pbest));
            pbest = a;
        } else if (starts(l, "3PHS> Best solution") && field(l, "Best solution:", a)) {  // end of the phase
            close_block();
            if (iter >= 0 && prows > 0.5 && clb > -1e299 && !in_iter && clb < pbest - eps && !close_to(clb, pbest - eps, scale))
                bad(pbt::strf("ends although rows are left and the bound %.2f does not meet the best cost %.2f", clb, pbest));
            if (starts_seen && iter >= 0 && !close_to(a, pbest, scale)) bad(pbt::strf("the best solution should cost %.2f", pbest));
            best = std::min(best, a + fixed0);
            phase_open = false;
            ++phase;
        } else if (starts(l, "REFN>") && field(l, "Best solution", a)) {
            if (!num(l, 5, b) || b != rounds) bad("round number");
            ++rounds;
            if (!close_to(a, best, scale)) bad(pbt::strf("the best solution should cost %.2f", best));
            if (field(l, "lb", b) && lb > -1e30 && !close_to(b, lb, scale)) bad(pbt::strf("the bound is %.6g", lb));
            if (field(l, "gap", d) && lb > -1e30 && best > 0.5) {
                double g = 100 * (a - lb) / a, slack = 0.011 + 100 * (0.02 + 6e-5 * scale) * (1 + std::fabs(lb) / a) / a;
                if (std::fabs(d - g) > slack) bad(pbt::strf("the gap is %.2f", g));
            }
        } else if (starts(l, "REFN>") && field(l, "Fixed cost", a)) {
            if (!num(l, 5, b) || b != rounds - 1) bad("round number");
            fixed0 = a;
            if (field(l, "free rows", b)) { if (b < 0 || b > 100) bad("percentage"); free0 = b; }
        }
    }
    if (best < 1e299 && !close_to(best, cost, scale)) c.fail(pbt::strf("the output tells of a cover of cost %.2f, the result costs %.6g", best, cost));
    c.check(full.empty() || phase > 0 || in.nrows == 0, "no end of a phase is reported");
    if (p.beta * lb + p.epsilon < cost - 1e-3 * (1 + cost) && lb > -1e30) c.check(rounds > 0, "no refinement round is reported although the target was not met");
    c.cls(rounds > 1 ? "several refinement rounds" : rounds ? "one refinement round" : "no refinement");
    if (improved) c.cls("improvements reported");
    c.cls(pbt::strf("verbosity %d", static_cast<int>(v)));
    c.num("lines", static_cast<double>(full.size()));
    c.nontrivial(rounds > 0 && in.nrows >= 3);
}

// Every 300 iterations a subgradient phase compares the bound of the core instance with that of the check before and
// ends when both the absolute and the relative improvement are below their thresholds (C31). Read from the output of
// level 5, so improvements within its precision of a threshold may go either way.
PBT_PROP(exit_checks) {
    Inst in = gen::gen_inst(s, s.chance(1, 2) ? gen::Size{100, 240} : gen::Size{180, 400});
    if (in.nrows <= 31 && !s.chance(1, 20)) throw pbt::Discard{};
    for (double x : in.costs) if (!(x < 1e5)) throw pbt::Discard{};
    Params p;
    p.seed       = s.below(100);
    p.heur_iters = s.below(3);
    p.epsilon    = s.pick({0.001, 0.01, 0.999});
    p.abs_exit   = s.pick({1e30, 1e30, 0.0, 0.05, 0.5, 5.0, 1.0});
    p.rel_exit   = s.pick({1e30, 1e30, 0.0, 0.0005, 0.001, 0.01, 0.1});
    c.describe(gen::describe(p) + " " + gen::describe(in));
    Instance inst = build(in);
    auto     out  = lines_of(captured([&] {
        Environment env;
        set_env(p, env);
        env.verbose = 5;
        ThreePhase tp;
        tp(env, inst);
    }));
    enum Ans { NO, MAYBE, YES };
    auto below = [](double x, double lim, double slack) { return x < lim - slack ? YES : x >= lim + slack ? NO : MAYBE; };
    double most = 0, a, b, core = -1e300, prev = -1e300, check = 300, cutoff = 1e300, reallb = -1e300;
    bool   inside = false, first = true;
    Ans    due = NO;    // should the phase have ended at the last check?
    bool   other = false;
    int    checks = 0, ended = 0, kept = 0, nr = in.nrows;
    size_t k = 0;
    auto   at_check = [&] {  // the bound is known when the line after the check is read
        if (core < -1e299) { due = MAYBE; prev = core; first = false; return; }
        ++checks;
        if (first) due = NO;
        else if (prev < -1e299) due = MAYBE;
        else {
            double imp = core - prev, sl = 0.011 + 1e-6 * (std::fabs(core) + std::fabs(prev));
            Ans    x = below(imp, p.abs_exit, sl), y = MAYBE;
            if (std::fabs(core) > 0.05) {
                double u = (imp - sl) / core, w = (imp + sl) / core, rs = (std::fabs(imp) + sl) / std::fabs(core) * (0.011 / std::fabs(core)) + 1e-6;
                y = std::max(u, w) + rs < p.rel_exit ? YES : std::min(u, w) - rs >= p.rel_exit ? NO : MAYBE;
            }
            due = x == NO || y == NO ? NO : x == YES && y == YES ? YES : MAYBE;
        }
        prev  = core;
        first = false;
    };
    auto pass = [&](double iter, bool after) {  // a line of iteration `iter` was printed
        while (after ? check <= iter : check < iter) {
            at_check();
            if (due == YES) c.fail(pbt::strf("the phase goes on after iteration %.0f although the bound moved from the check before by less than the thresholds [line %zu: ", check, k) + out[k] + "]");
            if (due == NO) ++kept;
            check += 300;
        }
    };
    for (k = 0; k < out.size(); ++k) {
        std::string const& l = out[k];
        if (starts(l, "3PHS>") && field(l, "Remaining rows:", a)) nr = static_cast<int>(a);
        if (starts(l, "SUBG> Subgradient start")) {
            inside = first = true;
            core = prev = reallb = -1e300;
            check = 300;
            most  = 0;
            other = false;
            if (!field(l, "cutoff", cutoff)) cutoff = -1e300;
            continue;
        }
        if (!inside || !starts(l, "SUBG>")) continue;
        if (starts(l, "SUBG> Subgradient ended")) {
            inside = false;
            if (other || reallb >= cutoff - 0.02 - 1e-5 * std::fabs(cutoff)) continue;
            // ended by the thresholds, or by the limit of ten iterations per row
            double max_iters = 10.0 * nr, gap = std::max(10.0, nr / 3.0) + 2;
            if (most + gap >= max_iters) continue;
            if (check > max_iters - 1) continue;
            at_check();
            ++ended;
            if (due == NO) c.fail(pbt::strf("the phase ends at iteration %.0f at the latest although the bound moved to %.2f [line %zu]", check, core, k));
            continue;
        }
        if (!num(l, 5, a)) continue;
        bool pricing = field(l, "Core LB:", b);
        pass(a, pricing);  // (a check comes after the bound's update and before the pricing of its iteration)
        most = std::max(most, a);
        if (pricing) {
            if (field(l, " LB:", b)) reallb = std::max(reallb, b);
            core = -1e300;  // starts over with the new core instance
        } else if (field(l, "Current lower bound:", b)) core = b;
        else if (l.find("optimal") != std::string::npos) other = true;
    }
    c.cls(ended ? "ended by the thresholds" : "not ended by the thresholds");
    if (kept) c.cls("a check passed");
    c.num("checks", checks);
    c.nontrivial(checks > 1);
}
// Within one three-phase call every fixing step adds one column for every 200 rows of the instance the call was
// given, however few rows are left (C32). Columns that turn out redundant are dropped again, so single steps may add
// fewer, but never more.
PBT_PROP(fix_count) {
    Inst in = gen::gen_big(s, 1000);
    if (in.nrows < 400) throw pbt::Discard{};
    Params p;
    p.seed       = s.below(100);
    p.heur_iters = s.below(2);
    p.epsilon    = 0.001;
    p.abs_exit = p.rel_exit = 1e30;
    c.describe(gen::describe(p) + pbt::strf(" %d rows %zu columns", in.nrows, in.ncols()));
    Instance inst = build(in);
    auto     out  = lines_of(captured([&] {
        Environment env;
        set_env(p, env);
        env.verbose = 4;
        ThreePhase tp;
        tp(env, inst);
    }));
    double const k = std::max(1, in.nrows / 200);
    double       rows = in.nrows;
    int          steps = 0, full = 0;
    for (size_t i = 0; i < out.size(); ++i) {
        double a, b, d;
        if (sscanf(out[i].c_str(), "CFIX> Fixing %lf columns (%lf + %lf)", &a, &b, &d) == 3) {
            c.check(d <= k, "%.0f columns added where %.0f should be [line %zu: %s]", d, k, i, out[i].c_str());
            double left = rows;
            for (size_t n = i + 1; n < out.size() && left == rows; ++n) if (field(out[n], "Remaining rows:", left)) break;
            // only steps that few rows would make smaller, and that are not the last
            if (rows < 200 * k && left > 0) { ++steps; full += d == k; }
            rows = left;
        }
    }
    c.cls(steps ? full == steps ? "every step adds them all" : full ? "some steps add fewer" : "no step adds them all" : "no such step");
    c.num("steps", steps);
    c.check(steps < 3 || full > 0, "none of %d steps adds the %.0f columns it should", steps, k);
    c.nontrivial(steps >= 3);
}
// Refinement rounds (C34): the whole procedure is replayed from fresh three-phase calls and column fixings, choosing
// what to fix by a statement of the rule in doubles, and compared with what the full solve prints and returns. Where
// ties leave the choice open the printed numbers decide, if they can, and the case ends otherwise.
static std::vector<int> ints(std::vector<cidx_t> const& v) { return std::vector<int>(v.begin(), v.end()); }
struct Picks {
    std::vector<std::vector<int>> sets;        // what may be fixed, columns ascending
    bool                          all = true;  // false: more ties than are enumerated
};
static void pick_fixed(Inst const& in, std::vector<double> const& u, std::vector<int> const& sol, int nfix, Picks& out) {
    struct G { double g, tol; int j; };
    std::vector<int> cov(static_cast<size_t>(in.nrows), 0);
    for (int j : sol) for (int i : in.cols[static_cast<size_t>(j)]) ++cov[static_cast<size_t>(i)];
    std::vector<G> gs;
    for (int j : sol) {
        double g = 0, rc = in.costs[static_cast<size_t>(j)], mag = std::fabs(rc);
        for (int i : in.cols[static_cast<size_t>(j)]) {
            double m = u[static_cast<size_t>(i)], n = cov[static_cast<size_t>(i)];
            g += m * (n - 1) / n;
            rc -= m;
            mag += 2 * std::fabs(m);
        }
        gs.push_back({g + std::max(rc, 0.0), 1e-6 * mag, j});
    }
    std::sort(gs.begin(), gs.end(), [](G const& a, G const& b) { return a.g != b.g ? a.g < b.g : a.j < b.j; });
    auto rows_of = [&](std::vector<int> const& f) {
        std::vector<char> seen(static_cast<size_t>(in.nrows), 0);
        int               n = 0;
        for (int j : f) for (int i : in.cols[static_cast<size_t>(j)]) if (!seen[static_cast<size_t>(i)]) { seen[static_cast<size_t>(i)] = 1; ++n; }
        return n;
    };
    auto add = [&](std::vector<int> f) {
        std::sort(f.begin(), f.end());
        if (std::find(out.sets.begin(), out.sets.end(), f) == out.sets.end()) out.sets.push_back(f);
    };
    std::vector<int> f;
    for (size_t a = 0, b; a < gs.size(); a = b) {  // groups of columns that rounding could order either way
        double hi = gs[a].g + gs[a].tol;
        for (b = a + 1; b < gs.size() && gs[b].g - gs[b].tol <= hi; ++b) hi = std::max(hi, gs[b].g + gs[b].tol);
        std::vector<int> all = f;
        for (size_t k = a; k < b; ++k) all.push_back(gs[k].j);
        if (rows_of(all) <= nfix) { f = all; continue; }
        if (b - a > 12) { out.all = false; return; }
        for (unsigned m = 0; m + 1 < (1u << (b - a)); ++m) {
            std::vector<int> g = f;
            for (size_t k = a; k < b; ++k) if (m >> (k - a) & 1) g.push_back(gs[k].j);
            if (rows_of(g) > nfix) continue;
            bool ends = false;
            for (size_t k = a; k < b && !ends; ++k) {
                if (m >> (k - a) & 1) continue;
                g.push_back(gs[k].j);
                ends = rows_of(g) > nfix;
                g.pop_back();
            }
            if (ends) add(g);
        }
        return;
    }
    add(f);
}
// Costs whose sums are exact in single precision, mostly different ones.
static void exact_costs(pbt::Src& s, Inst& in) {
    double unit = 1.0 / 64, sum = 0;
    if (s.chance(3, 4)) for (double& v : in.costs) v += static_cast<double>(s.below(64)) / 64;
    for (double v : in.costs) sum += v + 1;
    while (sum / unit >= 16777216.0) unit *= 2;
    for (double& v : in.costs) v = std::round(v / unit) * unit;
    gen::compute_exact(in);
}
PBT_PROP(refinement) {
    bool   big = s.chance(1, 16);
    Inst   in  = big ? gen::gen_big(s, 200) : gen::gen_inst(s, size_for(s));
    Params p   = gen::gen_params(s, false, 20);
    if (s.chance(2, 3)) {
        p.beta       = s.pick({0.0, 1.0, 0.9, 1.0});
        p.epsilon    = s.pick({0.001, 0.999, 0.1});
        p.min_fixing = s.pick({0.3, 0.21, 0.1, 0.47, 0.03, 0.77, 0.999});
        p.alpha      = s.pick({1.1, 1.37, 2.0, 1.07, 5.0});
        p.heur_iters = s.below(6);
    }
    if (big) { p.alpha = std::max(p.alpha, 1.5); p.min_fixing = std::max(p.min_fixing, 0.3); p.heur_iters = s.below(4); }
    exact_costs(s, in);
    std::vector<int> warm;
    if (s.chance(1, 3)) warm = warm_start(s, in);
    c.describe(gen::describe(in) + "\n" + gen::describe(p) + (warm.empty() ? "" : " warm " + gen::show(warm)));
    Instance const orig = build(in);
    Solution       ws;
    for (int j : warm) { ws.idxs.push_back(j); ws.cost += orig.costs[static_cast<size_t>(j)]; }
    CftResult   r;
    auto        out = lines_of(captured([&] {
        Environment env;
        set_env(p, env);
        env.verbose = 2;
        r = cft::run(env, orig, ws);
    }));
    std::vector<std::array<double, 4>> said;  // cost, bound, fixed cost, free percentage
    for (auto const& l : out) {
        if (!starts(l, "REFN>")) continue;
        double a, b;
        if (field(l, "Best solution", a) && field(l, "lb", b)) said.push_back({a, b, -1, -1});
        else if (field(l, "Fixed cost", a) && field(l, "free rows", b) && !said.empty()) { said.back()[2] = a; said.back()[3] = b; }
    }

    Environment env;
    set_env(p, env);
    Solution best = ws;
    if (ws.idxs.empty()) best.cost = limits<real_t>::max();
    real_t              prev = limits<real_t>::max(), frac = 0, goal = 0;
    Instance            inst = orig;
    FixingData          fixing;
    DualState           dual;
    std::vector<double> mults;
    make_identity_fixing_data(csize(orig.cols), rsize(orig.rows), fixing);
    int  improved = 0, fixed_rounds = 0, ties = 0;
    bool open = false;
    for (size_t round = 0;; ++round) {
        ThreePhase tp;
        CftResult  t = tp(env, inst);
        if (t.sol.cost + fixing.fixed_cost < best.cost) {
            best.cost = t.sol.cost + fixing.fixed_cost;
            best.idxs = fixing.fixed_cols;
            for (cidx_t j : t.sol.idxs) best.idxs.push_back(fixing.curr2orig.col_map[j]);
            improved += round > 0;
        }
        if (round == 0) {
            dual  = t.dual;
            goal  = env.beta * dual.lb + env.epsilon;
            mults = to_doubles(dual.mults);
        }
        if (std::fabs(static_cast<double>(best.cost) - static_cast<double>(goal)) <= 3e-7 * (std::fabs(static_cast<double>(best.cost)) + std::fabs(static_cast<double>(goal)))) { open = true; break; }
        if (best.cost <= goal) { c.check(said.size() == round, "%zu refinement rounds reported, the target was met after %zu", said.size(), round); break; }
        c.check(said.size() > round, "only %zu refinement rounds reported, cost %.9g goal %.9g", said.size(), static_cast<double>(best.cost), static_cast<double>(goal));
        frac = best.cost < prev ? env.min_fixing : std::min<real_t>(1, frac * env.alpha);
        prev = best.cost;
        double  want = static_cast<double>(frac) * in.nrows;
        Picks   may;
        if (std::fabs(want - std::round(want)) < 1e-4 * want) pick_fixed(in, mults, ints(best.idxs), static_cast<int>(std::round(want)) - 1, may);
        pick_fixed(in, mults, ints(best.idxs), static_cast<int>(want + 1e-4 * want), may);
        auto const& q = said[round];
        c.check(close_to(q[0], static_cast<double>(best.cost), 0), "round %zu starts from cost %.2f, should be %.9g", round, q[0], static_cast<double>(best.cost));
        c.check(close_to(q[1], static_cast<double>(dual.lb), 0), "round %zu reports bound %.2f, should be %.9g", round, q[1], static_cast<double>(dual.lb));
        std::vector<std::vector<int>> fits;
        for (auto const& g : may.sets) {
            double            fcost = 0, left = in.nrows;
            std::vector<char> seen(static_cast<size_t>(in.nrows), 0);
            for (int j : g) { fcost += in.costs[static_cast<size_t>(j)]; for (int i : in.cols[static_cast<size_t>(j)]) { left -= !seen[static_cast<size_t>(i)]; seen[static_cast<size_t>(i)] = 1; } }
            if (close_to(q[2], fcost, 0) && std::fabs(q[3] - 100.0 * left / in.nrows) <= 0.51) fits.push_back(g);
        }
        if (may.all && fits.empty()) c.fail(pbt::strf("round %zu fixes cost %.2f and leaves %.0f%% of the rows; the rule fixes %s of %s%s", round, q[2], q[3], gen::show(may.sets[0]).c_str(), gen::show(best.idxs).c_str(), may.sets.size() > 1 ? " or others tied with it" : ""));
        ties += may.sets.size() > 1;
        if (!may.all || fits.size() != 1) { open = true; break; }
        auto const& f = fits[0];
        inst = orig;
        make_identity_fixing_data(csize(orig.cols), rsize(orig.rows), fixing);
        IdxsMaps            maps;
        std::vector<cidx_t> fix(f.begin(), f.end());
        if (!fix.empty()) fix_columns_and_compute_maps(fix, inst, fixing, maps);
        fixed_rounds += !f.empty();
        if (inst.rows.empty()) { c.check(said.size() == round + 1, "%zu refinement rounds reported, everything was fixed after %zu", said.size(), round + 1); break; }
    }
    if (!open) {
        auto a = ints(r.sol.idxs), b = ints(best.idxs);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) c.fail("returns " + gen::show(a) + ", the rounds lead to " + gen::show(b));
        c.check(r.sol.cost == best.cost, "cost %.9g, the rounds lead to %.9g", static_cast<double>(r.sol.cost), static_cast<double>(best.cost));
        c.check(r.dual.lb == dual.lb && r.dual.mults == dual.mults, "%s", "bound or multipliers differ from the first call's");
    }
    c.cls(open ? "left open by rounding" : "followed to the end");
    if (ties) c.cls("ties at the end of the fixed part");
    if (improved) c.cls("a round improved the cover");
    c.cls(fixed_rounds == 0 ? "nothing fixed" : fixed_rounds == 1 ? "one round with fixing" : "several rounds with fixing");
    c.num("rounds", fixed_rounds);
    c.nontrivial(fixed_rounds >= 1);
}
// A three-phase call (C35) against the composition of the public parts it is documented to consist of.
PBT_PROP(phases) {
    static ThreePhase reused;
    bool   big = s.chance(1, 16);
    Inst   in  = big ? gen::gen_big(s, 300) : gen::gen_inst(s, size_for(s));
    Params p   = gen::gen_params(s, false, 20);
    if (s.chance(1, 2)) {
        p.epsilon    = s.pick({0.001, 0.999, 0.1});
        p.heur_iters = s.below(6);
    }
    exact_costs(s, in);
    bool again = s.chance(1, 2);
    c.describe(gen::describe(in) + "\n" + gen::describe(p) + (again ? " reused" : ""));
    Instance const orig  = build(in);
    Instance       given = orig;
    Environment    ea, eb;
    set_env(p, ea);
    set_env(p, eb);
    ThreePhase fresh;
    CftResult  r = again ? reused(ea, given) : fresh(ea, given);

    // first core: the first five columns of every row; multipliers: the least cost per row of a column
    Instance   inst = orig;
    InstAndMap core;
    {
        std::vector<char> in_core(orig.cols.size(), 0);
        for (auto const& row : orig.rows) for (size_t n = 0; n < row.size() && n < 5; ++n) in_core[static_cast<size_t>(row[n])] = 1;
        for (cidx_t j = 0; j < csize(orig.cols); ++j)
            if (in_core[static_cast<size_t>(j)]) {
                core.col_map.push_back(j);
                push_back_col_from(orig, j, core.inst);
            }
        fill_rows_from_cols(core.inst.cols, rsize(orig.rows), core.inst.rows);
    }
    std::vector<real_t> u(orig.rows.size(), limits<real_t>::max());
    for (size_t k = 0; k < core.col_map.size(); ++k) {
        auto col = core.inst.cols[k];
        for (ridx_t i : col) u[static_cast<size_t>(i)] = std::min(u[static_cast<size_t>(i)], core.inst.costs[k] / static_cast<real_t>(col.size()));
    }
    FixingData fixing;
    make_identity_fixing_data(csize(orig.cols), rsize(orig.rows), fixing);
    Subgradient subgrad;
    Greedy      greedy;
    ColFixing   fix;
    Pricer      price;
    Solution    best, sol;
    auto        lift = [&](Solution const& x) {
        best.cost = x.cost + fixing.fixed_cost;
        best.idxs = fixing.fixed_cols;
        for (cidx_t j : x.idxs) best.idxs.push_back(fixing.curr2orig.col_map[core.col_map[static_cast<size_t>(j)]]);
    };
    sol.cost = greedy(core.inst, u, core.inst.costs, sol.idxs);
    lift(sol);
    DualState dual;
    int       iters = 0, better = 0;
    bool      open = false;
    auto      met  = [&](real_t lb) {  // may rounding decide?
        double v = static_cast<double>(lb) + static_cast<double>(fixing.fixed_cost), w = static_cast<double>(best.cost) - static_cast<double>(eb.epsilon);
        if (std::fabs(v - w) <= 3e-7 * (std::fabs(v) + std::fabs(w))) open = true;
        return open || v >= w;
    };
    while (!inst.rows.empty()) {
        real_t step = 0.1F, cutoff = best.cost - fixing.fixed_cost;
        real_t lb   = subgrad(eb, inst, cutoff, price, core, step, u);
        if (iters++ == 0) dual = {u, lb};
        if (met(lb)) break;
        sol.idxs.clear();
        sol.cost = cutoff;
        subgrad.heuristic(eb, core.inst, step, greedy, sol, u);
        if (sol.cost + fixing.fixed_cost < best.cost && !sol.idxs.empty()) { lift(sol); ++better; }
        fix(eb, rsize(orig.rows), inst, fixing, u, greedy);
        lb = price(inst, u, core);
        for (real_t& x : u) x *= rnd_real(eb.rnd, real_t(0.9), real_t(1.1));
        if (met(lb)) break;
    }
    c.cls(open ? "left open by rounding" : "followed to the end");
    if (open) return;
    auto a = ints(r.sol.idxs), b = ints(best.idxs);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) c.fail("returns " + gen::show(a) + ", its parts lead to " + gen::show(b));
    c.check(r.sol.cost == best.cost, "cost %.9g, its parts lead to %.9g", static_cast<double>(r.sol.cost), static_cast<double>(best.cost));
    c.check(r.dual.lb == dual.lb, "bound %.9g, its parts lead to %.9g", static_cast<double>(r.dual.lb), static_cast<double>(dual.lb));
    if (r.dual.mults != dual.mults) c.fail("multipliers " + gen::show(r.dual.mults) + ", its parts lead to " + gen::show(dual.mults));
    c.check(given.rows.size() == inst.rows.size() && given.cols.size() == inst.cols.size(), "%zu rows and %zu columns are left, its parts leave %zu and %zu", given.rows.size(), given.cols.size(), inst.rows.size(), inst.cols.size());
    c.check(ea.rnd() == eb.rnd(), "%s", "another number of random draws than its parts make");
    if (better) c.cls("improved by a heuristic phase");
    if (again) c.cls("reused object");
    c.cls(iters == 1 ? "one iteration" : iters < 4 ? "two or three iterations" : "more iterations");
    c.num("iterations", iters);
    c.nontrivial(iters > 1);
}
PBT_MAIN
