// Solution quality against a frozen copy of the library (C09): the same instances are solved by both and
// the differences are tested. Any two versions of equal quality, even if they take other paths, differ evenly.
#include "variants.hpp"

struct Kind {
    const char* name;
    int         rows, cols, fam, n;
};

static Inst make(pbt::Src& s, Kind const& K) {
    if (K.fam >= 0) return gen::gen_inst(s, {K.rows, K.cols}, K.fam, 11);
    // full size, no small instances: random columns
    Inst in;
    in.nrows = K.rows;
    for (int j = 0; j < K.cols; ++j) {
        in.cols.push_back(gen::rnd_subset(s, K.rows, static_cast<int>(s.range(1, K.fam == -1 ? 6 : K.rows / 5))));
        double len = static_cast<double>(in.cols.back().size());
        in.costs.push_back(static_cast<double>(K.fam == -1 ? s.range(1, 100) : s.range(20, 60)) + (K.fam == -1 ? 0 : 10 * len));
    }
    gen::make_feasible(s, in);
    while (in.costs.size() < in.cols.size()) in.costs.push_back(50);
    return in;
}

struct Sums {
    double n, worse, better, sum, lbn, ls, lq;
};

static void slice(uint64_t base, Kind const& K, int from, int step, Sums& t) {
    for (int k = from; k < K.n; k += step) {
        pbt::Src is(pbt::mix64(base + static_cast<uint64_t>(k) * 0x9e3779b97f4a7c15ULL), nullptr);
        Job      job;
        job.in = make(is, K);
        double minc = 1e300, maxc = 0;
        for (double v : job.in.costs) {
            if (v > 0) minc = std::min(minc, v);
            maxc = std::max(maxc, v);
        }
        if (maxc <= 0 || maxc > 1e6) continue;
        job.p.seed    = static_cast<uint64_t>(k);
        job.p.epsilon = std::min(job.p.epsilon, minc * 0.1);
        Res a = solve("tree", job), b = solve("ref", job);
        if (a.status || b.status) _exit(4);
        if (b.cost <= 0) continue;
        t.n += 1;
        t.worse += a.cost > b.cost * (1 + 1e-6);
        t.better += a.cost < b.cost * (1 - 1e-6);
        t.sum += std::max(-0.1, std::min(0.1, a.cost / b.cost - 1));
        if (a.lb > -1e30 || b.lb > -1e30) {
            double d = std::max(-0.1, std::min(0.1, (b.lb - a.lb) / b.cost));
            t.ls += d; t.lq += d * d; t.lbn += 1;
        }
    }
}

static void compare(pbt::Src& s, pbt::Ctx& c, Kind const& K) {
    uint64_t  base = s.bits64();
    const int P    = 8;
    int       fds[P][2];
    pid_t     pids[P];
    load("tree"); load("ref");
    for (int w = 0; w < P; ++w) {
        if (pipe(fds[w])) { perror("pipe"); _exit(3); }
        pids[w] = fork();
        if (pids[w] == 0) {
            signal(SIGPROF, SIG_DFL);
            pbt::set_cpu_timer(400);
            Sums t{};
            slice(base, K, w, P, t);
            ssize_t r = write(fds[w][1], &t, sizeof t);
            _exit(r == sizeof t ? 0 : 3);
        }
        close(fds[w][1]);
    }
    Sums        t{};
    std::string bad;
    for (int w = 0; w < P; ++w) {
        Sums    x{};
        ssize_t r  = read(fds[w][0], &x, sizeof x);
        int     st = 0;
        close(fds[w][0]);
        waitpid(pids[w], &st, 0);
        if (r != sizeof x) bad = WIFSIGNALED(st) ? pbt::signame(WTERMSIG(st)) : pbt::strf("status %d", WEXITSTATUS(st));
        t.n += x.n; t.worse += x.worse; t.better += x.better; t.sum += x.sum; t.lbn += x.lbn; t.ls += x.ls; t.lq += x.lq;
    }
    if (!bad.empty()) c.fail(std::string(K.name) + ": a solve did not end normally: " + bad);
    double n  = std::max(1.0, t.n), lbn = std::max(1.0, t.lbn);
    double z  = (t.worse - t.better) / std::sqrt(std::max(1.0, t.worse + t.better));
    double lm = t.ls / lbn, lsd = std::sqrt(std::max(0.0, t.lq / lbn - lm * lm)) + 1e-9, lz = lm / lsd * std::sqrt(lbn);
    c.units = static_cast<int>(t.n);
    c.describe(pbt::strf("%.0f instances %s: worse on %.0f, better on %.0f, mean cost %+.5f, mean bound %+.5f (%.1f sd)", t.n, K.name, t.worse, t.better, t.sum / n, -lm, -lz));
    c.num(std::string("worse, ") + K.name, t.worse);
    c.num(std::string("better, ") + K.name, t.better);
    if (getenv("QDUMP")) { FILE* f = fopen(getenv("QDUMP"), "a"); fprintf(f, "%s %.0f %.0f %.0f %.6f %.2f %.6f %.2f\n", K.name, t.n, t.worse, t.better, t.sum / n, z, lm, lz); fclose(f); }
    c.nontrivial();
    if (getenv("QNOFAIL")) return;
    if (z > 6 && t.worse - t.better > 0.006 * n)
        c.fail(pbt::strf("%s: costlier cover than the reference on %.0f of %.0f instances, cheaper on %.0f (mean cost %+.4f%%)", K.name, t.worse, n, t.better, 100 * t.sum / n));
    if (lz > 8 && lm > 0.002)
        c.fail(pbt::strf("%s: bound lower than the reference's by %.3f%% on average (%.0f instances, %.0f standard deviations)", K.name, 100 * lm, lbn, lz));
}
PBT_PROP(p_hitting) { compare(s, c, {"hitting 40x80", 40, 80, 3, 4000}); }
PBT_PROP(p_hard) { compare(s, c, {"hard 40x160", 40, 160, 11, 4000}); }
PBT_PROP(p_uniform) { compare(s, c, {"uniform 60x200", 60, 200, -1, 1000}); }
PBT_PROP(p_medium) { compare(s, c, {"medium columns 50x200", 50, 200, -2, 800}); }
PBT_MAIN
