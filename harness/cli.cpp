// Command-line interpretation, in process (C21).
#include "iox.hpp"
#include "core/CliArgs.hpp"
using namespace cftx;
using namespace iox;

// What the code under test prints while f runs.
template <typename F>
static std::string captured(F f) {
    MemFile mf;
    fflush(stdout);
    int old = dup(1);
    dup2(mf.fd, 1);
    auto restore = [&] { fflush(stdout); dup2(old, 1); close(old); };
    try { f(); } catch (...) { restore(); throw; }
    restore();
    return mf.get();
}

struct Model {
    std::string inst, sol, init, parser = "RAIL";
    uint64_t    seed = 0, verbose = 4, heur = 250;
    double      tl = std::numeric_limits<double>::infinity();
    float       eps = 0.999f, beta = 1.0f, abs_exit = 1.0f, rel_exit = 0.001f;
    bool        unit = false, seeded = false;
};

static std::string path_value(pbt::Src& s) {
    static const char* dirs[] = {"", "", "a/", "/tmp/x.y/", "./", "../b/", "c\\d\\", "/", "dir.with.dots/sub/", "x\\y.z/"};
    static const char* names[] = {"inst", "rail507", "a b", "x", "with-dash", "UPPER", "i..j", "n\xc3\xa9"};
    static const char* exts[] = {"", ".txt", ".dat", ".tar.gz", ".", ".s.o.l", ".sol"};
    return std::string(dirs[s.below(10)]) + names[s.below(8)] + exts[s.below(7)];
}
static std::string default_sol(std::string const& inst) {
    std::string b = inst;
    size_t      p = b.find_last_of("/\\");
    if (p != std::string::npos) b = b.substr(p + 1);
    p = b.rfind('.');
    if (p != std::string::npos) b = b.substr(0, p);
    return b + ".sol";
}
static std::string uint_value(pbt::Src& s, uint64_t& v) {
    v = s.pick({(uint64_t)0, (uint64_t)1, (uint64_t)4, (uint64_t)5, s.below(1000), s.below(1u << 30), s.bits64(), UINT64_MAX, (uint64_t)1 << 63, (uint64_t)UINT32_MAX + 1});
    return (s.chance(1, 12) ? "00" : s.chance(1, 12) ? "+" : "") + std::to_string(v);
}
static std::string real_value(pbt::Src& s, double& v) {
    std::string t = s.pick({std::string("0"), std::string("1"), std::string("0.5"), std::string("1e-3"), std::string("2.5E2"), std::string("-1"), std::string(".25"), std::string("100."), std::string("1e30"), std::string("3600"), std::string("0.1"), std::string("-0.75"),
                            pbt::strf("%.6g", s.real(0, 100)), pbt::strf("%.12g", s.real(-1e6, 1e6)), pbt::strf("%.17g", s.real(0, 1))});
    v = strtod(t.c_str(), nullptr);
    return t;
}
static std::string bad_number(pbt::Src& s, bool real_f, bool integer) {
    if (integer) return s.pick({std::string("abc"), std::string(""), std::string("x1"), std::string("."), std::string("-"), std::string("18446744073709551616"), std::string("99999999999999999999999"), std::string("--seed"), std::string(" ")});
    if (real_f && s.chance(1, 3)) return s.pick({std::string("1e39"), std::string("-1e39"), std::string("3.5e38"), std::string("1e300")});
    return s.pick({std::string("abc"), std::string(""), std::string("x1"), std::string("."), std::string("-"), std::string("1e400"), std::string("-1e5000"), std::string("--beta"), std::string("e5"), std::string(" ")});
}

PBT_PROP(options) {
    Model                    m;
    std::vector<std::string> args;
    args.push_back(s.pick({std::string("accft"), std::string(""), std::string("-s"), std::string("./build/accft")}));
    std::vector<std::string> unknown;
    bool   help = false, error = false, missing = false;
    size_t n = s.below(s.pick({3, 8, 20}));
    bool   want_inst = !s.chance(1, 10);
    size_t inst_at   = s.below(n + 1);
    int    faults    = s.chance(1, 5) ? 1 : 0;
    std::string what;
    auto add = [&](const char* a, const char* b) { args.push_back(s.chance(1, 2) ? a : b); };
    for (size_t k = 0; k <= n; ++k) {
        if (k == inst_at && want_inst) {
            add("-i", "--inst");
            m.inst = path_value(s);
            args.push_back(m.inst);
        }
        if (k == n) break;
        uint64_t u;
        double   d;
        bool     bad = faults && s.chance(1, 3);
        switch (s.below(16)) {
            case 0: if (want_inst) { add("-i", "--inst"); m.inst = path_value(s); args.push_back(m.inst); } break;
            case 1: add("-p", "--parser"); m.parser = s.pick({std::string("RAIL"), std::string("SCP"), std::string("CVRP"), std::string("MPS"), std::string("rail"), std::string(""), std::string("-i"), std::string("nonsense")}); args.push_back(m.parser); break;
            case 2: add("-o", "--out-sol"); m.sol = s.chance(1, 8) ? std::string("") : s.chance(1, 8) ? std::string("-u") : path_value(s); args.push_back(m.sol); break;
            case 3: add("-w", "--init-sol"); m.init = s.chance(1, 8) ? std::string("--help") : path_value(s); args.push_back(m.init); break;
            case 4: case 5:
                add("-s", "--seed");
                if (bad) { args.push_back(bad_number(s, false, true)); error = true; what = "seed"; } else { args.push_back(uint_value(s, u)); if (!error) { m.seed = u; m.seeded = true; } }
                break;
            case 6:
                add("-t", "--timelimit");
                if (bad) { args.push_back(bad_number(s, false, false)); error = true; what = "time limit"; } else { args.push_back(real_value(s, d)); m.tl = d; }
                break;
            case 7:
                add("-v", "--verbose");
                if (bad) { args.push_back(bad_number(s, false, true)); error = true; what = "verbosity"; } else { args.push_back(uint_value(s, u)); m.verbose = u; }
                break;
            case 8:
                add("-g", "--heur-iters");
                if (bad) { args.push_back(bad_number(s, false, true)); error = true; what = "iterations"; } else { args.push_back(uint_value(s, u)); m.heur = u; }
                break;
            case 9: case 10: case 11: case 12: {
                static const char* f[4][2] = {{"-e", "--epsilon"}, {"-b", "--beta"}, {"-a", "--abs-subg-exit"}, {"-r", "--rel-subg-exit"}};
                float* t[4] = {&m.eps, &m.beta, &m.abs_exit, &m.rel_exit};
                auto   w = s.below(4);
                add(f[w][0], f[w][1]);
                if (bad) { args.push_back(bad_number(s, true, false)); error = true; what = f[w][1]; } else { args.push_back(real_value(s, d)); *t[w] = static_cast<float>(d); }
                break;
            }
            case 13: add("-u", "--unit-costs"); m.unit = true; break;
            case 14: if (s.chance(1, 3)) { add("-h", "--help"); help = true; } break;
            default: {
                auto u2 = s.pick({std::string("--unknown"), std::string("-x"), std::string("stray"), std::string(""), std::string("--seed=3"), std::string("-S"), std::string("-ss"), std::string("--inst="), std::string("--see"), std::string("42"), std::string("-"), std::string("--"), std::string("--seeds")});
                args.push_back(u2);
                unknown.push_back(u2);
            }
        }
    }
    if (s.chance(1, 12)) {  // the last option lacks its value
        args.push_back(s.pick({std::string("-i"), std::string("--inst"), std::string("-s"), std::string("--seed"), std::string("-t"), std::string("-v"), std::string("-o"), std::string("--out-sol"), std::string("-e"), std::string("-w"), std::string("-p"), std::string("-g"), std::string("-b"), std::string("-a"), std::string("-r"), std::string("--timelimit")}));
        missing = true;
    }
    std::string d;
    for (auto& a : args) d += " '" + a + "'";
    c.describe(d);
    if (m.inst.empty()) { error = true; if (what.empty()) what = "instance path missing"; }
    std::string base = default_sol(m.inst);
    if (base == ".sol" && m.sol.empty()) throw pbt::Discard{};
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    bool        threw = false;
    std::string err, out;
    Environment e;
    out = captured([&] {
        try { e = parse_cli_args(static_cast<int>(argv.size()), argv.data()); } catch (std::exception& x) { threw = true; err = x.what(); }
    });
    if (error) {
        c.check(threw, "accepted although wrong: %s", what.c_str());
        c.cls("error: " + what);
        c.nontrivial();
        return;
    }
    if (threw) c.fail("valid options rejected: " + err);
    auto eqs = [&](const char* w, std::string const& a, std::string const& b) { if (a != b) c.fail(std::string(w) + " is '" + a + "' instead of '" + b + "'"); };
    auto eqd = [&](const char* w, double a, double b) { if (!(a == b || std::fabs(a - b) <= 3e-16 * std::fabs(b))) c.fail(pbt::strf("%s is %.17g instead of %.17g", w, a, b)); };
    auto equ = [&](const char* w, uint64_t a, uint64_t b) { if (a != b) c.fail(pbt::strf("%s is %llu instead of %llu", w, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b))); };
    eqs("instance path", e.inst_path, m.inst);
    eqs("parser", e.parser, m.parser);
    eqs("solution path", e.sol_path, m.sol.empty() ? base : m.sol);
    eqs("initial solution path", e.initsol_path, m.init);
    equ("seed", e.seed, m.seed);
    eqd("time limit", e.time_limit, m.tl);
    equ("verbosity", e.verbose, m.verbose);
    equ("heuristic iterations", e.heur_iters, m.heur);
    auto eqf = [&](const char* w, float a, float b) {  // (rounded directly or through a wider type)
        if (a != b && a != std::nextafterf(b, 1e38f) && a != std::nextafterf(b, -1e38f)) c.fail(pbt::strf("%s is %.9g instead of %.9g", w, a, b));
    };
    eqf("epsilon", static_cast<float>(e.epsilon), m.eps);
    eqf("beta", static_cast<float>(e.beta), m.beta);
    eqf("absolute exit", static_cast<float>(e.abs_subgrad_exit), m.abs_exit);
    eqf("relative exit", static_cast<float>(e.rel_subgrad_exit), m.rel_exit);
    equ("unit costs", e.use_unit_costs, m.unit);
    Environment fresh;
    eqd("alpha", static_cast<double>(e.alpha), static_cast<double>(fresh.alpha));
    eqd("minimum fixing", static_cast<double>(e.min_fixing), static_cast<double>(fresh.min_fixing));
    prng_t want(m.seed);
    for (int k = 0; k < 8; ++k) c.require(e.rnd() == want(), "the random generator is not the one of the seed");
    // messages
    if (!help && unknown.empty() && !missing && !out.empty()) c.fail("output without reason: " + out.substr(0, 200));
    for (auto& u : unknown) if (!u.empty() && out.find(u) == std::string::npos) c.fail("nothing is said about '" + u + "'");
    if (missing && out.find(args.back()) == std::string::npos) c.fail("nothing is said about the missing value of " + args.back());
    if (help) for (const char* f : {"-h,--help", "-i,--inst", "-p,--parser", "-o,--out-sol", "-w,--init-sol", "-s,--seed", "-t,--timelimit", "-v,--verbose", "-e,--epsilon", "-g,--heur-iters", "-b,--beta", "-a,--abs-subg-exit", "-r,--rel-subg-exit", "-u,--unit-costs"}) {
            std::string fl(f), lg = fl.substr(3);
            if (out.find(lg) == std::string::npos || out.find(fl.substr(0, 2)) == std::string::npos) c.fail("the help text lacks " + lg);
        }
    if (help) {  // default values, whatever was set before
        struct { const char* name; double v; } defs[] = {{"--seed", static_cast<double>(fresh.seed)}, {"--verbose", static_cast<double>(fresh.verbose)}, {"--epsilon", static_cast<double>(fresh.epsilon)},
            {"--heur-iters", static_cast<double>(fresh.heur_iters)}, {"--beta", static_cast<double>(fresh.beta)}, {"--abs-subg-exit", static_cast<double>(fresh.abs_subgrad_exit)},
            {"--rel-subg-exit", static_cast<double>(fresh.rel_subgrad_exit)}, {"--timelimit", fresh.time_limit}};
        for (auto const& df : defs) {
            bool found = false;
            std::stringstream in(out);
            for (std::string l; std::getline(in, l);) {
                size_t at = l.find(df.name), eq = l.rfind('=');
                if (at == std::string::npos || eq == std::string::npos || eq < at) continue;
                char*  end;
                double v = strtod(l.c_str() + eq + 1, &end);
                found    = found || (end != l.c_str() + eq + 1 && (v == df.v || std::fabs(v - df.v) <= 1e-6 * std::fabs(df.v)));
            }
            c.check(found, "the help text lacks the default value of %s", df.name);
        }
    }
    c.cls(help ? "help" : "no help");
    if (!unknown.empty()) c.cls("unknown option");
    if (missing) c.cls("missing value at the end");
    if (m.sol.empty()) c.cls("default output name");
    c.nontrivial(args.size() >= 5);
}
PBT_MAIN
