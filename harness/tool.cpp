// The executable, run as a user runs it, in a scratch directory (C22).
#include <dirent.h>
#include <poll.h>
#include <sys/stat.h>

#include "iox.hpp"
using namespace cftx;
using namespace iox;
using gen::Params;

static std::string exe_path() {
    char    b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    return std::string(b, static_cast<size_t>(std::max<ssize_t>(n, 0))) + ".accft";
}
struct Scratch {  // a directory of this case's own
    std::string path;
    Scratch() {
        char t[] = "/tmp/verif-tool-XXXXXX";
        if (!mkdtemp(t)) throw pbt::Discard{};
        path = t;
    }
    std::vector<std::string> list() const {
        std::vector<std::string> v;
        if (DIR* d = opendir(path.c_str())) {
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.' || (e->d_name[1] && e->d_name[1] != '.')) v.push_back(e->d_name);
            closedir(d);
        }
        std::sort(v.begin(), v.end());
        return v;
    }
    ~Scratch() {
        for (auto& f : list()) {
            std::string p = path + "/" + f;
            if (unlink(p.c_str()) != 0) rmdir(p.c_str());
        }
        rmdir(path.c_str());
    }
    std::string read(std::string const& f, bool* there = nullptr) const {
        std::ifstream     in(path + "/" + f, std::ios::binary);
        std::stringstream o;
        o << in.rdbuf();
        if (there) *there = in.is_open();
        return o.str();
    }
    void write(std::string const& f, std::string const& t) const { std::ofstream(path + "/" + f, std::ios::binary) << t; }
};
struct Ran {
    int         status;
    std::string out, err;
};
static Ran run_tool(Scratch const& d, std::vector<std::string> const& args, long fsize_limit) {
    int o[2], e[2];
    if (pipe(o) || pipe(e)) throw pbt::Discard{};
    std::string exe = exe_path();
    std::vector<char*> av;
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        dup2(o[1], 1);
        dup2(e[1], 2);
        for (int k = 3; k < 64; ++k) close(k);
        if (chdir(d.path.c_str())) _exit(126);
        signal(SIGXFSZ, SIG_IGN);
        signal(SIGPROF, SIG_DFL);
        rlimit cpu{20, 20};
        setrlimit(RLIMIT_CPU, &cpu);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        rlimit fs{static_cast<rlim_t>(fsize_limit >= 0 ? fsize_limit : 64 << 20), static_cast<rlim_t>(fsize_limit >= 0 ? fsize_limit : 64 << 20)};
        setrlimit(RLIMIT_FSIZE, &fs);
        execv(exe.c_str(), av.data());
        _exit(127);
    }
    close(o[1]);
    close(e[1]);
    Ran    r;
    pollfd f[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}};
    int    open_n = 2;
    double t0 = pbt::now_wall();
    while (open_n > 0) {
        if (poll(f, 2, 1000) < 0) continue;
        for (int k = 0; k < 2; ++k)
            if (f[k].fd >= 0 && f[k].revents) {
                char    b[8192];
                ssize_t n = read(f[k].fd, b, sizeof b);
                if (n > 0) { auto& t = k ? r.err : r.out; if (t.size() < (1u << 22)) t.append(b, static_cast<size_t>(n)); }
                else { close(f[k].fd); f[k].fd = -1; --open_n; }
            }
        if (pbt::now_wall() - t0 > 100) { kill(p, SIGKILL); break; }
    }
    for (auto& x : f) if (x.fd >= 0) close(x.fd);
    waitpid(p, &r.status, 0);
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) >= 126) throw pbt::Discard{};
    return r;
}

static std::vector<int> some_cover(pbt::Src& s, Inst const& in) {
    std::vector<int>  ord(in.cols.size()), sol;
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0);
    std::iota(ord.begin(), ord.end(), 0);
    s.shuffle(ord);
    for (int j : ord) {
        bool useful = s.chance(1, 10);
        for (int i : in.cols[static_cast<size_t>(j)]) useful = useful || !cov[static_cast<size_t>(i)];
        if (!useful) continue;
        for (int i : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(i)] = 1;
        sol.push_back(j);
    }
    return sol;
}
// Cost and columns of a solution file.
static bool read_sol(std::string const& t, float& cost, std::vector<int>& idxs) {
    const char* p = t.c_str();
    char*       e;
    cost = strtof(p, &e);
    if (e == p) return false;
    for (p = e;; p = e) {
        long v = strtol(p, &e, 10);
        if (e == p) break;
        idxs.push_back(static_cast<int>(v));
    }
    while (*p == ' ' || *p == '\n' || *p == '\r') ++p;
    return *p == '\0';
}

PBT_PROP(tool) {
    int   f  = static_cast<int>(s.below(4));
    static const int szr[] = {4, 12, 12, 30}, szc[] = {8, 40, 40, 90};
    size_t z = s.below(4);
    Inst  in = gen::gen_inst(s, {szr[z], szc[z]});
    Style t  = style(s);
    auto  init_in_file = some_cover(s, in);
    int   fault = s.chance(2, 5) ? 1 + static_cast<int>(s.below(6)) : 0;
    std::string what = "no fault";
    Inst  written = in;
    if (fault == 1) {
        // a row no column covers
        written.nrows += 1;
        what = "infeasible instance";
        if (f == CVRP) init_in_file = some_cover(s, in);
    }
    Lines ls = to_lines(s, t, f, written, init_in_file);
    if (fault == 2) switch (s.below(3)) {
            case 0: if (f == MPS) { for (size_t l = 0; l < ls.size(); ++l) if (ls[l][0] == "COLUMNS") { ls.resize(l); break; } } else ls.resize(ls.size() / 2 + (ls.size() < 2)); what = "truncated instance"; if (f != MPS && ls.size() >= static_cast<size_t>(in.ncols()) + 1 && f != CVRP) throw pbt::Discard{}; break;
            case 1: ls.clear(); what = "empty file"; break;
            default: if (f == MPS) { for (auto& l : ls) if (l[0] == "ROWS") l[0] = "ROW"; } else ls[0][s.below(2)] = "x7"; what = "malformed instance"; break;
        }
    Scratch     d;
    std::string iname = s.pick({std::string("inst.txt"), std::string("inst"), std::string("a.b.dat"), std::string("my inst.x")});
    std::string base = iname.substr(0, iname.rfind('.')) + ".sol";
    d.write(iname, render(s, t, ls));
    std::vector<std::string> args{"accft"};
    auto opt = [&](const char* a, const char* b, std::string const& v) { args.push_back(s.chance(1, 2) ? a : b); args.push_back(v); };
    Params p;
    p.heur_iters = s.pick({(uint64_t)10, (uint64_t)0, (uint64_t)40, (uint64_t)250});
    opt("-i", "--inst", s.chance(1, 4) ? "./" + iname : iname);
    if (f != RAIL || s.chance(1, 2)) opt("-p", "--parser", fmt_name(f));
    if (p.heur_iters != 250) opt("-g", "--heur-iters", std::to_string(p.heur_iters));
    if (s.chance(1, 2)) { p.seed = s.below(1000); opt("-s", "--seed", std::to_string(p.seed)); }
    if (s.chance(1, 3)) { p.epsilon = s.pick({0.5, 0.0, 0.015625, 2.0}); opt("-e", "--epsilon", pbt::strf("%g", p.epsilon)); }
    if (s.chance(1, 4)) { p.beta = s.pick({0.0, 1.0, 1.5}); opt("-b", "--beta", pbt::strf("%g", p.beta)); }
    if (s.chance(1, 5)) { p.abs_exit = s.pick({0.0, 0.5, 10.0}); opt("-a", "--abs-subg-exit", pbt::strf("%g", p.abs_exit)); }
    if (s.chance(1, 5)) { p.rel_exit = s.pick({0.0, 0.125, 0.5}); opt("-r", "--rel-subg-exit", pbt::strf("%g", p.rel_exit)); }
    bool unit = s.chance(1, 4);
    if (unit) args.push_back(s.chance(1, 2) ? "-u" : "--unit-costs");
    int verbose = static_cast<int>(s.below(6));
    if (fault == 3) verbose = 0;
    if (verbose != 4 || s.chance(1, 3)) opt("-v", "--verbose", std::to_string(verbose));
    bool tl0 = s.chance(1, 15);
    if (tl0) opt("-t", "--timelimit", "0");
    else if (s.chance(1, 6)) opt("-t", "--timelimit", "100000");
    bool        named = s.chance(2, 3);
    std::string oname = named ? "out.sol" : base, opath = oname;
    long        fs = -1;
    if (fault == 3) {
        named = true;
        oname = "out.sol";
        switch (s.below(4)) {
            case 0: opath = "/nonexistent-verif-dir/out.sol"; what = "output directory missing"; break;
            case 1: opath = "/dev/full"; what = "full device"; break;
            case 2: opath = "sub"; mkdir((d.path + "/sub").c_str(), 0755); what = "output is a directory"; break;
            default: opath = oname; fs = static_cast<long>(s.below(2)); what = "write stopped"; break;
        }
    }
    if (named) opt("-o", "--out-sol", opath);
    Inst ex = in;
    ex.cols = expected_cols(f, in);
    if (unit) { ex.costs.assign(ex.costs.size(), 1.0); ex.exact = true; ex.known_opt = -1; }
    std::vector<int> warm = f == CVRP ? init_in_file : std::vector<int>();
    bool  has_init = s.chance(1, 3) || fault == 4;
    float wcost = 0;
    if (has_init) {
        auto w = some_cover(s, in);
        s.shuffle(w);
        std::string bad;
        float       wc = static_cast<float>(gen::cost_of(in, w));
        if (fault == 4) {
            what = "bad initial solution";
            switch (s.below(4)) {
                case 0: w[0] = in.ncols() + static_cast<int>(s.below(3)); what += ", index out of range"; break;
                case 1: w.push_back(w[0]); wc += static_cast<float>(in.costs[static_cast<size_t>(w[0])]); what += ", repeated column"; break;
                case 2: bad = "zzz"; break;
                default: w.clear(); what += ", missing file";
            }
        } else warm = w;
        std::string st = bad.empty() ? pbt::strf("%.9g", static_cast<double>(wc)) : bad;
        for (int j : w) st += " " + std::to_string(j);
        if (!(fault == 4 && w.empty())) d.write("init.sol", st + (s.chance(1, 2) ? "\n" : ""));
        opt("-w", "--init-sol", "init.sol");
    }
    if (fault == 5) {
        switch (s.below(4)) {
            case 0: opt("-s", "--seed", "abc"); what = "seed is no number"; break;
            case 1: opt("-p", "--parser", "nonsense"); what = "unknown parser"; break;
            case 2: args.erase(args.begin() + 1, args.begin() + 3); what = "no instance given"; break;
            default: opt("-t", "--timelimit", "soon"); what = "time limit is no number"; break;
        }
    }
    if (fault == 6) { unlink((d.path + "/" + iname).c_str()); what = "instance file missing"; }
    for (int j : warm) wcost += static_cast<float>(ex.costs[static_cast<size_t>(j)]);
    bool had_out = s.chance(1, 3);
    std::string old = "777777 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32\nold\n";
    if (had_out) d.write(oname, old);
    std::string desc = what + ":";
    for (auto& a : args) desc += " '" + a + "'";
    c.describe(desc + " " + fmt_name(f) + " " + gen::describe(in));
    auto before = d.list();
    Ran  r      = run_tool(d, args, fs);
    auto after  = d.list();
    if (WIFSIGNALED(r.status)) c.fail(pbt::strf("ended by signal %d; ", WTERMSIG(r.status)) + r.err.substr(0, 300));
    int code = WEXITSTATUS(r.status);
    c.cls(std::string("format ") + fmt_name(f));
    c.cls(what);
    if (fault) {
        c.check(code != 0, "success is reported although: %s", what.c_str());
        c.require(!r.err.empty(), "no error message");
        if (fs < 0) {
            bool        there;
            std::string now = d.read(oname, &there);
            if (there != had_out || (there && now != old)) c.fail("a solution file is left: " + now.substr(0, 200));
            c.require(after == before, "other files appear");
        }
        c.nontrivial();
        return;
    }
    if (code != 0) c.fail(pbt::strf("exit status %d: ", code) + r.err.substr(0, 300));
    if (!r.err.empty()) c.fail("something on the error stream: " + r.err.substr(0, 300));
    if (verbose == 0 && !r.out.empty()) c.fail("output at verbosity 0: " + r.out.substr(0, 200));
    bool there;
    std::string text = d.read(oname, &there);
    c.check(there, "no solution file %s", oname.c_str());
    if (!had_out) { before.push_back(oname); std::sort(before.begin(), before.end()); }
    c.require(after == before, "other files appear");
    float            cost;
    std::vector<int> idxs;
    if (!read_sol(text, cost, idxs)) c.fail("solution file cannot be read: " + text.substr(0, 200));
    auto e = gen::cover_error(ex, idxs);
    if (!e.empty()) c.fail("not a cover: " + e + " in " + text.substr(0, 200));
    double real = gen::cost_of(ex, idxs);
    c.check(std::fabs(static_cast<double>(cost) - real) <= gen::cost_tol(ex, real), "cost %.9g in the file, %.9g in truth", static_cast<double>(cost), real);
    if (!warm.empty()) c.check(real <= gen::cost_of(ex, warm) * (1 + 1e-6) + 1e-6, "solution of cost %.9g is worse than the initial one, %.9g", real, gen::cost_of(ex, warm));
    if (verbose >= 1) {
        size_t q = r.out.rfind("Best solution ");
        c.require(q != std::string::npos, "the best solution is not reported");
        double rep = strtod(r.out.c_str() + q + 14, nullptr);
        c.check(std::fabs(rep - real) <= 0.0051 + 1e-4 * std::fabs(real), "%.9g is reported, the solution costs %.9g", rep, real);
    }
    if (!tl0) {  // the same settings through the library
        Instance    inst = build(ex);
        Environment env;
        set_env(p, env);
        Solution ws;
        ws.cost = wcost;
        for (int j : warm) ws.idxs.push_back(static_cast<cidx_t>(j));
        if (has_init && !unit) ws.cost = static_cast<float>(gen::cost_of(in, warm));
        auto lib = run(env, inst, ws);
        std::vector<int> li(lib.sol.idxs.begin(), lib.sol.idxs.end());
        if (li != idxs) c.fail("solution " + gen::show(idxs) + " differs from the library's " + gen::show(li));
        c.check(static_cast<float>(lib.sol.cost) == cost, "cost %.9g differs from the library's %.9g", static_cast<double>(cost), static_cast<double>(lib.sol.cost));
    }
    c.cls(pbt::strf("verbosity %d", verbose));
    if (!warm.empty()) c.cls("initial solution");
    if (unit) c.cls("unit costs");
    if (!named) c.cls("default output name");
    c.nontrivial(idxs.size() >= 2);
}

// What a run reports about itself (C33).
PBT_PROP(toollog) {
    int   f  = static_cast<int>(s.below(4));
    Inst  in = gen::gen_inst(s, s.pick({gen::Size{4, 8}, gen::Size{12, 40}}));
    Style t  = style(s);
    auto  init_in_file = some_cover(s, in);
    Lines ls = to_lines(s, t, f, in, init_in_file);
    Scratch d;
    d.write("inst.x", render(s, t, ls));
    struct Opt { const char *a, *b; std::string v; };
    std::vector<Opt> opts{{"-i", "--inst", "inst.x"}, {"-p", "--parser", fmt_name(f)}, {"-o", "--out-sol", "o.sol"}};
    int  verbose = static_cast<int>(s.below(6));
    bool unit    = s.chance(1, 3);
    opts.push_back({"-v", "--verbose", std::to_string(verbose)});
    opts.push_back({"-g", "--heur-iters", std::to_string(s.below(20))});
    if (s.chance(1, 2)) opts.push_back({"-s", "--seed", std::to_string(s.chance(1, 2) ? s.bits64() : s.below(100))});
    if (s.chance(1, 2)) opts.push_back({"-e", "--epsilon", s.pick({"0.5", "0.25", "2", "0.015625"})});
    if (s.chance(1, 2)) opts.push_back({"-b", "--beta", s.pick({"0.5", "1.5", "2", "0.75"})});
    if (s.chance(1, 2)) opts.push_back({"-a", "--abs-subg-exit", s.pick({"0.5", "10", "0.125"})});
    if (s.chance(1, 2)) opts.push_back({"-r", "--rel-subg-exit", s.pick({"0.125", "0.5", "0.25"})});
    if (s.chance(1, 2)) opts.push_back({"-t", "--timelimit", s.pick({"1000", "2500.5", "100000"})});
    s.shuffle(opts);
    std::vector<std::string> args{"accft"};
    size_t                   upos = s.below(opts.size());
    for (size_t k = 0; k < opts.size(); ++k) {
        args.push_back(s.chance(1, 2) ? opts[k].a : opts[k].b);
        args.push_back(opts[k].v);
        if (unit && k == upos) args.push_back(s.chance(1, 2) ? "-u" : "--unit-costs");
    }
    std::string desc;
    for (auto& a : args) desc += " '" + a + "'";
    c.describe(desc + " " + fmt_name(f) + " " + gen::describe(in));
    Ran r = run_tool(d, args, -1);
    if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) c.fail("exit status: " + r.err.substr(0, 300));
    if (verbose == 0) {
        if (!r.out.empty()) c.fail("output at verbosity 0: " + r.out.substr(0, 200));
        return;
    }
    std::vector<std::string> out;
    std::stringstream        o(r.out);
    for (std::string l; std::getline(o, l);) out.push_back(l);
    // the sizes of the instance
    size_t q = r.out.find("Instance size:");
    if (q == std::string::npos) c.fail("the instance's size is not reported: " + r.out.substr(0, 300));
    long        nr = -1, nc = -1;
    std::string sz = r.out.substr(q + 14, r.out.find('\n', q) - q - 14);
    if (sscanf(sz.c_str(), " %ld x %ld", &nr, &nc) != 2 || nr != in.nrows || nc != static_cast<long>(expected_cols(f, in).size()))
        c.fail("size reported as" + sz + pbt::strf(", the instance has %d rows and %zu columns", in.nrows, expected_cols(f, in).size()));
    if (r.out.find("inst.x") == std::string::npos || r.out.find(fmt_name(f)) == std::string::npos) c.fail("instance or format not reported: " + r.out.substr(0, 300));
    // at the end the cost that is also in the file
    bool             there;
    std::string      text = d.read("o.sol", &there);
    float            cost = 0;
    std::vector<int> idxs;
    if (!read_sol(text, cost, idxs)) c.fail("solution file cannot be read: " + text.substr(0, 200));
    q = r.out.rfind("Best solution ");
    c.require(q != std::string::npos, "the best solution is not reported");
    double rep = strtod(r.out.c_str() + q + 14, nullptr);
    c.check(std::fabs(rep - static_cast<double>(cost)) <= 0.0051 + 1e-4 * std::fabs(static_cast<double>(cost)), "%.9g is reported, the file says %.9g", rep, static_cast<double>(cost));
    if (verbose >= 3) {  // every setting is listed once with its value
        for (auto const& op : opts) {
            int found = 0;
            for (auto const& l : out) {
                size_t at = l.find(op.b), eq = l.find(" = ");
                if (at == std::string::npos || eq == std::string::npos || at > eq) continue;
                char after = l[at + strlen(op.b)];
                if (after != ' ' && after != '=') continue;
                ++found;
                std::string v = l.substr(eq + 3);
                bool        same = v == op.v;
                if (!same) {
                    char*  e;
                    double x = strtod(v.c_str(), &e), y = strtod(op.v.c_str(), nullptr);
                    same = e != v.c_str() && *e == '\0' && strcmp(op.a, "-s") && x == y;
                }
                if (!same) c.fail("setting " + std::string(op.b) + " " + op.v + " is reported as: " + l);
            }
            c.check(found == 1, "setting %s is reported %d times", op.b, found);
        }
        q = r.out.find("--unit-costs");
        c.require(q != std::string::npos, "unit costs are not reported");
        std::string l = r.out.substr(q, r.out.find('\n', q) - q);
        bool        says = l.find("true") != std::string::npos || (!l.empty() && l.back() == '1');
        if (says != unit) c.fail("unit costs reported as: " + l);
    }
    c.cls(pbt::strf("verbosity %d", verbose));
    c.cls(std::string("format ") + fmt_name(f));
    c.nontrivial(idxs.size() >= 2);
}
PBT_MAIN
