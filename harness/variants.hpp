// Calls configurations of the library that were compiled into shared objects next to the program.
#ifndef VERIF_VARIANTS_HPP
#define VERIF_VARIANTS_HPP
#include <dlfcn.h>
#include <fcntl.h>

#include <limits>

#include "gen.hpp"
#include "variant.hpp"
using gen::Inst;
using gen::Params;

static vsolve_t load(std::string const& name) {
    static std::map<std::string, vsolve_t> got;
    auto                                   it = got.find(name);
    if (it != got.end()) return it->second;
    char    exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    std::string so = std::string(exe) + "." + name + ".so";
    if (access(so.c_str(), R_OK) != 0) throw pbt::Discard{};  // does not compile with this configuration
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    auto f = reinterpret_cast<vsolve_t>(dlsym(h, "vf_solve"));
    if (!f) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    return got[name] = f;
}

struct Res {
    int                 status;
    std::string         msg;
    std::vector<int>    sol;
    std::vector<double> mults;
    double              cost, lb;
};
struct Job {
    Inst             in;
    Params           p;
    std::vector<int> warm;
    uint64_t         verbose = 0;
};
static Res solve(std::string const& name, Job const& k) {
    std::vector<int> begs{0}, idxs;
    for (auto& c : k.in.cols) {
        idxs.insert(idxs.end(), c.begin(), c.end());
        begs.push_back(static_cast<int>(idxs.size()));
    }
    Res r;
    r.sol.resize(k.in.cols.size() * 2 + 8);
    r.mults.resize(static_cast<size_t>(k.in.nrows) * 2 + 8);
    VIn i;
    i.nrows = k.in.nrows; i.ncols = k.in.ncols(); i.begs = begs.data(); i.idxs = idxs.data(); i.costs = k.in.costs.data();
    i.seed = k.p.seed; i.heur_iters = k.p.heur_iters; i.epsilon = k.p.epsilon; i.alpha = k.p.alpha; i.beta = k.p.beta;
    i.abs_exit = k.p.abs_exit; i.rel_exit = k.p.rel_exit; i.min_fixing = k.p.min_fixing;
    i.time_limit = k.p.time_limit == -2 ? -1.0 : std::numeric_limits<double>::infinity();
    i.warm = k.warm.data(); i.nwarm = static_cast<int>(k.warm.size()); i.warm_cost = gen::cost_of(k.in, k.warm);
    i.verbose = k.verbose;
    VOut o;
    o.cap_sol = static_cast<int>(r.sol.size()); o.sol = r.sol.data();
    o.cap_mults = static_cast<int>(r.mults.size()); o.mults = r.mults.data();
    int save = -1;
    if (k.verbose) {
        fflush(stdout);
        save = dup(1);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }
    load(name)(&i, &o);
    if (save >= 0) {
        fflush(stdout);
        dup2(save, 1);
        close(save);
    }
    r.status = o.status; r.msg = o.msg; r.cost = o.cost; r.lb = o.lb;
    r.sol.resize(static_cast<size_t>(std::min(o.nsol, o.cap_sol)));
    r.mults.resize(static_cast<size_t>(std::min(o.nmults, o.cap_mults)));
    return r;
}
#endif
