// Plain interface of one compiled configuration of the library (a shared object).
#ifndef VERIF_VARIANT_HPP
#define VERIF_VARIANT_HPP
#include <cstdint>
struct VIn {
    int           nrows, ncols;
    int const*    begs;  // ncols + 1
    int const*    idxs;
    double const* costs;
    uint64_t      seed, heur_iters;
    double        epsilon, alpha, beta, abs_exit, rel_exit, min_fixing, time_limit;
    int const*    warm;
    int           nwarm;
    double        warm_cost;
    uint64_t      verbose;
};
struct VOut {
    int     status;  // 0 solved, 1 exception
    char    msg[600];
    int     nsol, cap_sol;
    int*    sol;
    int     nmults, cap_mults;
    double* mults;
    double  cost, lb;
};
using vsolve_t = void (*)(VIn const*, VOut*);
#endif
