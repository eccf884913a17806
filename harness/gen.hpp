// Instance and parameter generators plus independent oracles. Nothing here uses the code under test.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <cmath>
#include <numeric>

#include "pbt.hpp"

namespace gen {

struct Inst {
    int                           nrows = 0;
    std::vector<std::vector<int>> cols;
    std::vector<double>           costs;      // every cost is exactly representable as float
    std::string                   fam, cmode;
    bool                          exact    = false;  // every partial sum of costs is exact in float
    double                        known_opt = -1;    // certified optimum, if the family has one
    std::vector<int>              planted;           // an optimal cover when known_opt >= 0

    int  ncols() const { return static_cast<int>(cols.size()); }
    size_t nnz() const {
        size_t n = 0;
        for (auto& c : cols) n += c.size();
        return n;
    }
};

inline void compute_exact(Inst& in) {
    double q = 1.0 / 64.0, tot = 0;
    in.exact = true;
    for (double c : in.costs) {
        if (std::floor(c / q) != c / q) in.exact = false;
        tot += std::fabs(c);
    }
    // choose the coarsest quantum that divides all costs
    while (in.exact && q < 1024) {
        bool ok = true;
        for (double c : in.costs) ok = ok && std::floor(c / (2 * q)) == c / (2 * q);
        if (!ok) break;
        q *= 2;
    }
    if (tot / q >= (1 << 23)) in.exact = false;
}

inline double tofloat(double v) { return static_cast<double>(static_cast<float>(v)); }

inline void gen_costs(pbt::Src& s, Inst& in, int modes = 12) {
    int mode = static_cast<int>(s.below(static_cast<uint64_t>(modes)));
    in.costs.resize(in.cols.size());
    static const char* names[] = {"unit", "int1-5", "int1-100", "int1-10000", "quarter", "zeros",
                                  "fraction", "spread", "bysize", "big", "bigM", "nearties"};
    in.cmode = names[mode];
    for (size_t j = 0; j < in.cols.size(); ++j) {
        double c = 1;
        switch (mode) {
            case 0: c = 1; break;
            case 1: c = static_cast<double>(s.range(1, 5)); break;
            case 2: c = static_cast<double>(s.range(1, 100)); break;
            case 3: c = static_cast<double>(s.range(1, 10000)); break;
            case 4: c = static_cast<double>(s.range(1, 200)) * 0.25; break;
            case 5: c = static_cast<double>(s.below(3)); break;
            case 6: c = tofloat(0.01 + s.unit() * 20.0); break;
            case 7: c = std::ldexp(1.0, static_cast<int>(s.range(0, 12)) - 3); break;
            case 8: c = std::max<double>(1, static_cast<double>(in.cols[j].size())) * 2 + static_cast<double>(s.below(3)); break;
            case 9: c = static_cast<double>(s.range(1, 40)) * 1000; break;
            case 11: c = 10000.0 * std::max<double>(1, static_cast<double>(in.cols[j].size())) + static_cast<double>(s.below(4)); break;
            case 10: c = s.chance(1, 3) ? 3.0e7 : static_cast<double>(s.range(1, 40)) * 0.25; break;
        }
        in.costs[j] = c;
    }
}

inline std::vector<int> rnd_subset(pbt::Src& s, int n, int k) {  // k distinct of [0,n)
    if (k > n) k = n;
    std::vector<int> r;
    if (k * 3 < n) {
        std::set<int> seen;
        while (static_cast<int>(r.size()) < k) {
            int v = static_cast<int>(s.below(static_cast<uint64_t>(n)));
            while (!seen.insert(v).second) v = (v + 1) % n;
            r.push_back(v);
        }
    } else {
        std::vector<int> p(static_cast<size_t>(n));
        std::iota(p.begin(), p.end(), 0);
        for (int i = 0; i < k; ++i) {
            size_t j = static_cast<size_t>(i) + s.below(static_cast<uint64_t>(n - i));
            std::swap(p[static_cast<size_t>(i)], p[j]);
        }
        r.assign(p.begin(), p.begin() + k);
    }
    return r;
}

// Adds every uncovered row to some column (or to new columns).
inline void make_feasible(pbt::Src& s, Inst& in) {
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0);
    for (auto& c : in.cols)
        for (int i : c) cov[static_cast<size_t>(i)] = 1;
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            if (in.cols.empty() || s.chance(1, 8)) in.cols.push_back({i});
            else {
                auto& c = in.cols[s.below(in.cols.size())];
                c.push_back(i);
            }
        }
}

struct Size {
    int max_rows, max_cols;
    Size(int r = 12, int c = 40)
        : max_rows(r)
        , max_cols(c) {
    }
};

inline Inst gen_inst(pbt::Src& s, Size z = {}, int forced_fam = -1, int cost_modes = 12) {
    Inst in;
    int  fam = forced_fam >= 0 ? forced_fam : static_cast<int>(s.below(12));
    int  R = z.max_rows, C = z.max_cols;
    auto U = [&](int lo, int hi) { return static_cast<int>(s.skewed(lo, std::max(lo, hi))); };
    switch (fam) {
        default:
        case 0: {
            in.fam   = "uniform";
            in.nrows = U(1, R);
            int n    = U(1, C);
            int mx   = U(1, std::max(1, in.nrows / 2));
            for (int j = 0; j < n; ++j) in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(1, mx))));
            break;
        }
        case 1: {
            in.fam   = "density";
            in.nrows = U(2, R);
            int n    = U(2, C);
            unsigned d = static_cast<unsigned>(s.range(1, 9));
            for (int j = 0; j < n; ++j) {
                in.cols.emplace_back();
                for (int i = 0; i < in.nrows; ++i)
                    if (s.below(10) < d) in.cols.back().push_back(i);
            }
            break;
        }
        case 2: {
            in.fam   = "cycle";
            in.nrows = U(3, R) | 1;
            if (in.nrows > R) in.nrows -= 2;
            if (in.nrows < 3) in.nrows = 3;
            int w = static_cast<int>(s.range(2, std::max(2, std::min(4, in.nrows - 1))));
            for (int i = 0; i < in.nrows; ++i) {
                in.cols.emplace_back();
                for (int k = 0; k < w; ++k) in.cols.back().push_back((i + k) % in.nrows);
            }
            int extra = U(0, C - in.nrows);
            for (int j = 0; j < extra; ++j) in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(1, w))));
            break;
        }
        case 3: {
            in.fam   = "hitting3";  // each row is hit by exactly three columns
            in.nrows = U(3, R);
            int n    = static_cast<int>(s.range(3, std::max(3, std::min(C, in.nrows))));
            in.cols.resize(static_cast<size_t>(n));
            for (int i = 0; i < in.nrows; ++i)
                for (int j : rnd_subset(s, n, 3)) in.cols[static_cast<size_t>(j)].push_back(i);
            break;
        }
        case 4: {
            // Costs above row prices, and a partition of the rows into tight columns: the optimum
            // is the sum of the prices (weak duality).
            in.fam   = "planted";
            in.nrows = U(2, R);
            std::vector<double> y(static_cast<size_t>(in.nrows));
            double              q = s.chance(1, 3) ? 0.25 : 1.0;
            for (auto& v : y) v = static_cast<double>(s.range(0, 12)) * q;
            std::vector<int> perm(static_cast<size_t>(in.nrows));
            std::iota(perm.begin(), perm.end(), 0);
            s.shuffle(perm);
            double opt = 0;
            for (double v : y) opt += v;
            std::vector<std::vector<int>> cc;
            std::vector<double>           cs;
            std::vector<char>             pl;
            for (size_t p = 0; p < perm.size();) {
                size_t len = static_cast<size_t>(s.range(1, 5));
                std::vector<int> c;
                double           v = 0;
                for (; len > 0 && p < perm.size(); --len, ++p) { c.push_back(perm[p]); v += y[static_cast<size_t>(perm[p])]; }
                cc.push_back(c); cs.push_back(v); pl.push_back(1);
            }
            int extra = U(0, C - static_cast<int>(cc.size()));
            for (int j = 0; j < extra; ++j) {
                auto   c = rnd_subset(s, in.nrows, static_cast<int>(s.range(1, std::max(1, std::min(8, in.nrows)))));
                double v = 0;
                for (int i : c) v += y[static_cast<size_t>(i)];
                cc.push_back(c); cs.push_back(v + static_cast<double>(s.below(6)) * q); pl.push_back(0);
            }
            std::vector<int> ord(cc.size());
            std::iota(ord.begin(), ord.end(), 0);
            s.shuffle(ord);
            for (int o : ord) {
                if (pl[static_cast<size_t>(o)]) in.planted.push_back(in.ncols());
                in.cols.push_back(cc[static_cast<size_t>(o)]);
                in.costs.push_back(cs[static_cast<size_t>(o)]);
            }
            in.known_opt = opt;
            in.cmode     = "dual";
            compute_exact(in);
            return in;
        }
        case 5: {
            in.fam   = "rail";  // many short columns over consecutive rows, costs 1 or 2
            in.nrows = U(4, R);
            int n    = U(4, C);
            for (int j = 0; j < n; ++j) {
                int beg = static_cast<int>(s.below(static_cast<uint64_t>(in.nrows)));
                int len = static_cast<int>(s.range(2, std::max(2, std::min(12, in.nrows))));
                std::vector<int> c;
                for (int k = 0; k < len; ++k)
                    if (k == 0 || s.below(4)) c.push_back((beg + k) % in.nrows);
                std::sort(c.begin(), c.end());
                c.erase(std::unique(c.begin(), c.end()), c.end());
                in.cols.push_back(c);
            }
            in.costs.clear();
            make_feasible(s, in);
            for (size_t j = 0; j < in.cols.size(); ++j) in.costs.push_back(s.chance(1, 3) ? 2 : 1);
            in.cmode = "rail12";
            compute_exact(in);
            return in;
        }
        case 6: {
            // Cheap columns chosen early that later ones make redundant, in varying number.
            in.fam = "redundant";
            int k  = static_cast<int>(s.range(2, std::max(2, std::min(16, R / 3))));
            int extra_rows = static_cast<int>(s.below(4));
            in.nrows = 2 * k + extra_rows;
            std::vector<int> A, B;
            for (int i = 0; i < k; ++i) A.push_back(i);
            for (int i = 0; i < k + extra_rows; ++i) B.push_back(k + i);
            in.cols.push_back(A); in.costs.push_back(static_cast<double>(s.range(1, 2 * k)));
            in.cols.push_back(B); in.costs.push_back(static_cast<double>(s.range(1, 6 * k)));
            for (int i = 0; i < k; ++i) {
                std::vector<int> c{i, k + i};
                if (s.chance(1, 5)) c.push_back(static_cast<int>(s.below(static_cast<uint64_t>(in.nrows))));
                std::sort(c.begin(), c.end());
                c.erase(std::unique(c.begin(), c.end()), c.end());
                in.cols.push_back(c);
                in.costs.push_back(static_cast<double>(s.range(1, 8)));
            }
            int extra = U(0, std::min(10, C - in.ncols()));
            for (int j = 0; j < extra; ++j) {
                in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(1, std::max(1, in.nrows / 2)))));
                in.costs.push_back(static_cast<double>(s.range(1, 20)));
            }
            double q = s.pick({1.0, 0.5, 4.0});
            for (double& c : in.costs) c *= q;
            make_feasible(s, in);
            while (in.costs.size() < in.cols.size()) in.costs.push_back(3);
            in.cmode = "own";
            compute_exact(in);
            return in;
        }
        case 7: {
            in.fam   = "degenerate";  // duplicate, dominated, empty, singleton, full columns
            in.nrows = U(1, R);
            int n    = U(1, C);
            for (int j = 0; j < n; ++j) {
                switch (s.below(6)) {
                    case 0: in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(1, std::max(1, in.nrows / 2))))); break;
                    case 1: in.cols.push_back({static_cast<int>(s.below(static_cast<uint64_t>(in.nrows)))}); break;
                    case 2: in.cols.emplace_back(); break;
                    case 3: {
                        std::vector<int> c(static_cast<size_t>(in.nrows));
                        std::iota(c.begin(), c.end(), 0);
                        in.cols.push_back(c);
                        break;
                    }
                    case 4:
                        if (!in.cols.empty()) { auto c = in.cols[s.below(in.cols.size())]; in.cols.push_back(c); }
                        break;
                    case 5:
                        if (!in.cols.empty()) {
                            auto c = in.cols[s.below(in.cols.size())];
                            if (c.size() > 1) c.pop_back();
                            in.cols.push_back(c);
                        }
                        break;
                }
            }
            break;
        }
        case 8: {
            in.fam   = "wide";
            in.nrows = static_cast<int>(s.range(1, std::min(8, R)));
            int n    = static_cast<int>(s.range(std::min(C, 20), C));
            for (int j = 0; j < n; ++j) in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(1, in.nrows))));
            break;
        }
        case 9: {
            in.fam   = "tall";
            in.nrows = static_cast<int>(s.range(std::max(1, R / 2), R));
            int n    = static_cast<int>(s.range(2, std::max(2, std::min(C, 12))));
            in.cols.resize(static_cast<size_t>(n));
            for (int i = 0; i < in.nrows; ++i)
                for (int j : rnd_subset(s, n, static_cast<int>(s.range(1, std::min(3, n))))) in.cols[static_cast<size_t>(j)].push_back(i);
            break;
        }
        case 11: {
            in.fam   = "hard";  // similar costs, medium columns: refinement keeps improving
            in.nrows = U(8, R);
            int n    = static_cast<int>(s.range(6, std::max(6, C)));
            int lo   = std::max(1, in.nrows / 8), hi = std::max(lo, in.nrows / static_cast<int>(s.range(2, 4)));
            for (int j = 0; j < n; ++j) in.cols.push_back(rnd_subset(s, in.nrows, static_cast<int>(s.range(lo, hi))));
            make_feasible(s, in);
            double base = s.pick({5.0, 20.0, 100.0}), q = s.pick({1.0, 0.25, 0.0});
            for (auto& c : in.cols) {
                double v = base + static_cast<double>(c.size()) * base / in.nrows * 2;
                v += q > 0 ? static_cast<double>(s.below(static_cast<uint64_t>(base))) : s.unit() * base;
                in.costs.push_back(q > 0 ? std::floor(v / q) * q : tofloat(v));
            }
            // sometimes a free column over a large part of the rows: it is fixed at no cost
            for (int f = static_cast<int>(s.below(3)); f > 0; --f) {
                size_t at = s.below(in.cols.size() + 1);
                in.cols.insert(in.cols.begin() + static_cast<long>(at), rnd_subset(s, in.nrows, static_cast<int>(s.range(std::max(1, in.nrows / 6), in.nrows / 2))));
                in.costs.insert(in.costs.begin() + static_cast<long>(at), 0.0);
            }
            in.cmode = q > 0 ? "near-equal" : "near-equal fraction";
            compute_exact(in);
            return in;
        }
        case 10: {
            in.fam   = "partition+";  // disjoint blocks solved independently: several fixing rounds
            in.nrows = U(2, R);
            std::vector<std::pair<int, int>> blocks;
            for (int b = 0; b < in.nrows;) {
                int len = static_cast<int>(s.range(1, 6));
                if (b + len > in.nrows) len = in.nrows - b;
                blocks.push_back({b, len});
                b += len;
            }
            for (auto& bl : blocks) {
                int m = static_cast<int>(s.range(1, 4));
                for (int k = 0; k < m && in.ncols() < C; ++k) {
                    auto c = rnd_subset(s, bl.second, static_cast<int>(s.range(1, bl.second)));
                    for (int& i : c) i += bl.first;
                    in.cols.push_back(c);
                }
            }
            break;
        }
    }
    make_feasible(s, in);
    if (s.chance(1, 3))
        for (auto& c : in.cols) s.shuffle(c);  // row order within a column is arbitrary
    gen_costs(s, in, cost_modes);
    compute_exact(in);
    return in;
}

inline std::string describe(Inst const& in) {
    std::string o = pbt::strf("instance %s/%s rows=%d cols=%d:", in.fam.c_str(), in.cmode.c_str(), in.nrows, in.ncols());
    for (int j = 0; j < in.ncols() && o.size() < 3000; ++j) {
        o += pbt::strf(" %d:%g{", j, in.costs[static_cast<size_t>(j)]);
        for (size_t k = 0; k < in.cols[static_cast<size_t>(j)].size(); ++k) o += pbt::strf(k ? ",%d" : "%d", in.cols[static_cast<size_t>(j)][k]);
        o += "}";
    }
    return o;
}

// ---- oracles -------------------------------------------------------------------------------

// Exact optimum by dynamic programming over covered row sets (nrows <= 16).
inline double exact_opt(Inst const& in) {
    if (in.known_opt >= 0) return in.known_opt;
    int                   n = in.nrows;
    std::vector<uint32_t> m(in.cols.size(), 0);
    for (size_t j = 0; j < in.cols.size(); ++j)
        for (int i : in.cols[j]) m[j] |= 1u << i;
    std::vector<double> best(1u << n, 1e300);
    best[0]       = 0;
    uint32_t full = (n == 32 ? 0 : (1u << n)) - 1u;
    // lists of columns per lowest uncovered row
    std::vector<std::vector<size_t>> by(static_cast<size_t>(n));
    for (size_t j = 0; j < m.size(); ++j)
        for (int i = 0; i < n; ++i)
            if (m[j] >> i & 1u) by[static_cast<size_t>(i)].push_back(j);
    for (uint32_t st = 0; st < full; ++st) {
        if (best[st] >= 1e300) continue;
        int i = __builtin_ctz(~st);
        for (size_t j : by[static_cast<size_t>(i)]) {
            uint32_t t = st | m[j];
            if (best[st] + in.costs[j] < best[t]) best[t] = best[st] + in.costs[j];
        }
    }
    return best[full];
}
inline bool has_exact(Inst const& in) { return in.known_opt >= 0 || in.nrows <= 14; }

template <typename V>
std::string cover_error(Inst const& in, V const& idxs) {  // "" when a valid cover
    std::vector<char> seen(in.cols.size(), 0), cov(static_cast<size_t>(in.nrows), 0);
    for (auto jj : idxs) {
        long long j = static_cast<long long>(jj);
        if (j < 0 || j >= in.ncols()) return pbt::strf("column %lld out of range [0,%d)", j, in.ncols());
        if (seen[static_cast<size_t>(j)]++) return pbt::strf("column %lld appears twice", j);
        for (int i : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(i)] = 1;
    }
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) return pbt::strf("row %d is not covered", i);
    return "";
}
template <typename V>
double cost_of(Inst const& in, V const& idxs) {
    double c = 0;
    for (auto j : idxs) c += in.costs[static_cast<size_t>(j)];
    return c;
}
// Tolerance on the float-accumulated cost of a solution that really costs `cost`.
inline double cost_tol(Inst const& in, double cost) {
    if (in.exact) return 0;
    return 4e-5 * std::fabs(cost) + 1e-6;
}
template <typename V>
std::string show(V const& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size() && o.size() < 800; ++i) o += pbt::strf(i ? " %g" : "%g", static_cast<double>(v[i]));
    return o + "]";
}

// Large instances. A column depends only on the instance's key and its own number, so that shrinking the
// counts keeps the columns that remain.
inline uint64_t hash2(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
    for (int k = 0; k < 3; ++k) {
        z ^= z >> 31;
        z *= 0xbf58476d1ce4e5b9ULL;
    }
    return z ^ (z >> 29);
}
inline Inst gen_big(pbt::Src& s, int max_rows) {
    Inst     in;
    int      fam = static_cast<int>(s.below(6));
    uint64_t key = s.below(1 << 20);
    in.nrows     = static_cast<int>(s.range(20, max_rows));
    int n = static_cast<int>(s.range(1, 4 * in.nrows)), lo = static_cast<int>(s.range(2, 15)), spread = static_cast<int>(s.range(1, 200));
    auto R = [&](uint64_t j, uint64_t t, uint64_t m) { return hash2(hash2(key, j), t) % m; };
    auto norm = [](std::vector<int>& c) {
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
    };
    uint64_t       N = static_cast<uint64_t>(in.nrows);
    static const char* names[] = {"big uniform", "big rail", "star", "chain", "big planted", "block"};
    in.fam   = names[fam];
    in.cmode = "own";
    std::vector<double> y(N);
    for (uint64_t i = 0; i < N; ++i) y[i] = static_cast<double>(R(i, 77, 13));
    auto col = [&](std::vector<int> c, double cost) {
        norm(c);
        in.cols.push_back(std::move(c));
        in.costs.push_back(cost);
    };
    if (fam == 4) {  // tight blocks of consecutive rows
        for (uint64_t i = 0; i < N;) {
            uint64_t         len = std::min<uint64_t>(N - i, 1 + R(i, 5, 6));
            std::vector<int> c;
            double           v = 0;
            for (; len; --len, ++i) { c.push_back(static_cast<int>(i)); v += y[i]; }
            in.planted.push_back(in.ncols());
            col(c, v);
        }
        in.known_opt = 0;
        for (double v : y) in.known_opt += v;
    } else if (fam == 2) {  // one row shared by every column, the others covered by one column each
        for (uint64_t i = 1; i < N; ++i) col({0, static_cast<int>(i)}, static_cast<double>(1 + R(i, 1, static_cast<uint64_t>(spread))));
        n = std::min(n, 5);
    } else if (fam == 3) {  // gadgets of four rows whose cheapest column turns out redundant
        in.nrows = std::max(4, in.nrows / 4 * 4);
        N        = static_cast<uint64_t>(in.nrows);
        for (uint64_t g = 0; g + 3 < N; g += 4) {
            int    b = static_cast<int>(g);
            double c = static_cast<double>(4 + R(g, 1, static_cast<uint64_t>(spread)));
            col({b, b + 1}, c);
            col({b, b + 2}, c * 1.5);
            col({b + 1, b + 3}, c * 1.5 + static_cast<double>(R(g, 2, 4)));
            if (R(g, 3, 3) == 0 && g) {
                in.cols.back().push_back(b - 1);
                norm(in.cols.back());
            }
        }
        n = std::min(n, in.nrows / 4);
    }
    for (int jj = 0; jj < n; ++jj) {
        uint64_t         j   = static_cast<uint64_t>(jj) + (1u << 20);
        uint64_t         len = static_cast<uint64_t>(lo) + R(j, 1, static_cast<uint64_t>(lo));
        std::vector<int> c;
        if (fam == 1) {
            uint64_t beg = R(j, 2, N);
            for (uint64_t k = 0; k < len; ++k)
                if (!k || R(j, 100 + k, 4)) c.push_back(static_cast<int>((beg + k) % N));
        } else if (fam == 5) {  // columns stay within one of a few blocks of rows
            uint64_t w = std::max<uint64_t>(1, N / 8), b = R(j, 2, 8) * w;
            for (uint64_t k = 0; k < len; ++k) c.push_back(static_cast<int>(std::min(N - 1, b + R(j, 100 + k, w))));
        } else
            for (uint64_t k = 0; k < len; ++k) c.push_back(static_cast<int>(R(j, 100 + k, N)));
        norm(c);
        double v = 0;
        if (fam == 4) {
            for (int i : c) v += y[static_cast<size_t>(i)];
            v += static_cast<double>(R(j, 3, 6));
        } else
            v = fam == 1 ? 1.0 + static_cast<double>(R(j, 3, 2)) : static_cast<double>(1 + R(j, 3, static_cast<uint64_t>(spread)));
        if (fam == 2 || fam == 3) v += 20 + spread * static_cast<double>(c.size());  // hardly ever worth it
        col(c, v);
    }
    std::vector<char> cov(N, 0);
    for (auto& c : in.cols)
        for (int i : c) cov[static_cast<size_t>(i)] = 1;
    for (uint64_t i = 0; i < N; ++i)
        if (!cov[i]) col({static_cast<int>(i)}, static_cast<double>(spread));
    compute_exact(in);
    return in;
}

// ---- solver parameters ----------------------------------------------------------------------
struct Params {
    uint64_t seed = 0, heur_iters = 250;
    double   epsilon = 0.999f, alpha = 1.1f, beta = 1.0f, abs_exit = 1.0f, rel_exit = 0.001f, min_fixing = 0.3f;
    double   time_limit = -1;  // negative: none
};
inline Params gen_params(pbt::Src& s, bool allow_tl = true, unsigned max_heur = 60) {
    Params p;
    p.heur_iters = s.chance(1, 12) ? 250 : static_cast<uint64_t>(s.skewed(0, max_heur));
    if (s.chance(1, 6)) {  // refinement-heavy: weak three-phase, never satisfied with the bound
        p.seed       = s.below(1000);
        p.heur_iters = s.below(4);
        p.epsilon    = s.pick({0.001, 0.1, 0.999});
        p.beta       = s.pick({0.0, 1.0});
        p.min_fixing = s.pick({0.3, 0.2, 0.1, 0.4});
        p.alpha      = s.pick({1.1, 1.3, 2.0});
        return p;
    }
    if (s.chance(1, 4)) {  // otherwise defaults
        p.seed = s.chance(1, 4) ? s.bits64() : s.below(50);
        p.epsilon = s.pick({0.999, 0.0, 0.01, 1e-6, 0.5, 1.5, 10.0});
        p.alpha = s.pick({1.1, 1.05, 1.5, 3.0, 20.0});
        p.beta = s.pick({1.0, 0.0, 0.5, 1.1, 2.0});
        p.abs_exit = s.pick({1.0, 0.0, 0.01, 100.0});
        p.rel_exit = s.pick({0.001, 0.0, 0.1, 1.0});
        p.min_fixing = s.pick({0.3, 0.05, 0.7, 1.0, 0.01});
    } else if (s.chance(1, 2)) {
        p.seed    = s.below(1000);
        p.epsilon = s.pick({0.999, 0.01, 1e-3});
        p.beta    = s.pick({1.0, 0.0});
        p.min_fixing = s.pick({0.3, 0.1});
    }
    if (allow_tl && s.chance(1, 12)) p.time_limit = s.pick({0.0, 1e-6, 1e-4, 1e-3});
    return p;
}
inline std::string describe(Params const& p) {
    return pbt::strf("params seed=%llu heur=%llu eps=%g alpha=%g beta=%g abs=%g rel=%g minfix=%g tl=%g",
                     static_cast<unsigned long long>(p.seed), static_cast<unsigned long long>(p.heur_iters), p.epsilon, p.alpha,
                     p.beta, p.abs_exit, p.rel_exit, p.min_fixing, p.time_limit);
}
}  // namespace gen
#endif
