// Choice-sequence property-based testing engine.
//
// A case is a deterministic function of a sequence of bounded integer choices. Choices are drawn
// from a seeded generator, recorded in shared memory as they are drawn (so that a case that
// crashes or hangs can be replayed as well), shrunk by deleting / zeroing / lowering choices, and
// stored in a replay file. Every run of a case on behalf of a verdict happens in a forked child
// with a CPU limit.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline std::string strf(const char* f, ...) {
    char    buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// Observations are summed over the cases, or maximised when the label starts with "max".
inline void add_num(std::map<std::string, double>& m, std::string const& l, double v) {
    double& x = m[l];
    if (l.compare(0, 3, "max") == 0) x = std::max(x, v);
    else x += v;
}

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}

struct Fail {
    std::string msg;
};
struct Discard {};

static const size_t MAX_CHOICES = 1u << 20;
static const size_t MSG_CAP     = 1u << 16;

// Shared between a worker (or replay child) and its parent.
struct Shm {
    volatile uint64_t cur_case;    // case index being run
    volatile uint64_t in_case;     // 1 while running
    volatile uint64_t next_case;   // next case index to run
    volatile uint64_t nchoices;
    volatile uint64_t status;      // 0 none, 1 pass, 2 fail, 3 discard
    char              msg[MSG_CAP];
    char              desc[MSG_CAP];
    uint64_t          choices[MAX_CHOICES];
};

class Src {
    uint64_t        st;
    const uint64_t* rep;   // replayed choices, or null
    size_t          nrep;
    size_t          pos = 0;
    Shm*            shm;

public:
    Src(uint64_t seed, Shm* sh)
        : st(seed), rep(nullptr), nrep(0), shm(sh) {
        if (shm) shm->nchoices = 0;
    }
    Src(const uint64_t* r, size_t n, Shm* sh)
        : st(0), rep(r), nrep(n), shm(sh) {
        if (shm) shm->nchoices = 0;
    }
    // Uniform in [0, n), n >= 1. 0 is the simplest choice.
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (rep) {
            v = pos < nrep ? rep[pos] : 0;
            if (v >= n) v %= n;
        } else {
            uint64_t r = mix64(st++);
            r ^= mix64(r + 0x1234567);
            v = static_cast<uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64);
        }
        if (shm) {
            if (pos >= MAX_CHOICES) throw Discard{};
            shm->choices[pos] = v;
            shm->nchoices     = pos + 1;
        }
        ++pos;
        return v;
    }
    uint64_t bits64() {
        uint64_t hi = below(1ULL << 32);
        return (hi << 32) | below(1ULL << 32);
    }
    int64_t range(int64_t lo, int64_t hi) {  // inclusive, simplest lo
        if (hi <= lo) return lo;
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
    }
    // small numbers more likely
    int64_t skewed(int64_t lo, int64_t hi) {
        if (hi <= lo) return lo;
        uint64_t w = static_cast<uint64_t>(hi - lo) + 1;
        uint64_t k = below(4);
        for (uint64_t i = 0; i < k && w > 2; ++i) w = (w + 1) / 2;
        return lo + static_cast<int64_t>(below(w));
    }
    bool chance(unsigned num, unsigned den) {  // simplest: false
        return below(den) >= den - num;
    }
    double unit() { return static_cast<double>(below(1ULL << 30)) / static_cast<double>(1ULL << 30); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template <typename T>
    T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template <typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template <typename V>
    void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; --i) {
            size_t j = i - 1 - below(i);  // 0 -> no move
            std::swap(v[i - 1], v[j]);
        }
    }
    size_t used() const { return pos; }
};

struct Ctx {
    std::vector<std::string> labels;
    bool                     nontriv = false;
    uint64_t                 key     = 0;  // 0: use hash of the choices
    std::string              desc;
    Shm*                     shm = nullptr;
    std::map<std::string, double> nums;  // aggregated (summed) numeric observations
    double                   units = 1;   // how many evaluations this case stands for

    void cls(std::string const& l) { labels.push_back(l); }
    void num(std::string const& l, double v) { add_num(nums, l, v); }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void describe(std::string const& d) {
        desc = d;
        if (shm) {
            size_t n = std::min(d.size(), MSG_CAP - 1);
            memcpy(shm->desc, d.data(), n);
            shm->desc[n] = 0;
        }
    }
    [[noreturn]] void fail(std::string const& m) { throw Fail{m}; }
    void              require(bool b, const char* m) {
        if (!b) throw Fail{m};
    }
    template <typename... A>
    void check(bool b, const char* f, A... a) {
        if (!b) throw Fail{strf(f, a...)};
    }
};

using PropFn = void (*)(Src&, Ctx&);
struct Prop {
    std::string name;
    PropFn      fn;
};
inline std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}
struct Reg {
    Reg(const char* n, PropFn f) { props().push_back({n, f}); }
};
#define PBT_PROP(NAME)                                        \
    static void prop_##NAME(pbt::Src& s, pbt::Ctx& c);        \
    static pbt::Reg reg_##NAME(#NAME, prop_##NAME);           \
    static void prop_##NAME(pbt::Src& s, pbt::Ctx& c)

// ---------------------------------------------------------------------------------------------

inline std::string jesc(std::string const& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) o += strf("\\u%04x", ch);
        else o += ch;
    }
    return o + "\"";
}

inline double now_wall() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Opts {
    std::string run, out, replay_dir = ".", replay, tag;
    uint64_t    cases = 1000, seed = 1, only = UINT64_MAX;
    int         jobs     = 8;
    double      cpu_case = 60;   // CPU seconds a single case may use before it counts as a hang
    double      wall     = 600;  // stop generating after this long
    double      shrink_s = 60;
    bool        verbose  = false;
};

struct Outcome {
    int         kind;  // 0 pass, 1 fail, 2 crash/hang, 3 discard
    std::string msg, desc;
};

inline void set_cpu_timer(double s) {
    itimerval it{};
    it.it_value.tv_sec  = static_cast<time_t>(s);
    it.it_value.tv_usec = static_cast<suseconds_t>((s - static_cast<double>(it.it_value.tv_sec)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline int run_one(PropFn fn, Src& src, Ctx& c, std::string& msg) {
    try {
        fn(src, c);
        return 0;
    } catch (Discard&) {
        return 3;
    } catch (Fail& f) {
        msg = f.msg;
        return 1;
    } catch (std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return 1;
    }
}

inline Shm* make_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shm*>(p);
}

inline std::string signame(int sig) {
    if (sig == SIGPROF) return "CPU limit exceeded (hang)";
    return strf("killed by signal %d (%s)", sig, strsignal(sig));
}

inline std::string errfile_head(std::string const& path) {
    std::ifstream f(path);
    std::string   all, l;
    int           n = 0;
    while (n < 12 && std::getline(f, l)) {
        if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assert") != std::string::npos || l.find("SUMMARY") != std::string::npos ||
            l.find("    #") != std::string::npos || n > 0) {
            all += l + "\n";
            ++n;
        }
    }
    return all;
}

// Runs a case in a forked child; returns its outcome. `sh->choices` receives the choices drawn.
inline Outcome run_forked(Prop const& p, Opts const& o, Shm* sh, std::vector<uint64_t> const* rep,
                          uint64_t seed) {
    sh->status   = 0;
    sh->nchoices = 0;
    sh->msg[0] = sh->desc[0] = 0;
    std::string errf = strf("/tmp/pbt.err.%d", getpid());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 1); close(fd); }
        signal(SIGPROF, SIG_DFL);
        set_cpu_timer(o.cpu_case);
        Ctx c;
        c.shm = sh;
        std::string msg;
        int         r;
        if (rep) {
            Src src(rep->data(), rep->size(), sh);
            r = run_one(p.fn, src, c, msg);
        } else {
            Src src(seed, sh);
            r = run_one(p.fn, src, c, msg);
        }
        size_t n = std::min(msg.size(), MSG_CAP - 1);
        memcpy(sh->msg, msg.data(), n);
        sh->msg[n] = 0;
        sh->status = static_cast<uint64_t>(r + 1);
        _exit(0);
    }
    int    st = 0;
    double t0 = now_wall();
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now_wall() - t0 > o.cpu_case * 4 + 30) {  // blocked without using CPU
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(200);
    }
    Outcome oc;
    oc.desc = sh->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status) {
        oc.kind = static_cast<int>(sh->status) - 1;
        oc.msg  = sh->msg;
    } else {
        oc.kind = 2;
        oc.msg  = WIFSIGNALED(st) ? signame(WTERMSIG(st)) : strf("exited with status %d", WEXITSTATUS(st));
        oc.msg += "\n" + errfile_head(errf);
    }
    unlink(errf.c_str());
    return oc;
}

inline uint64_t case_seed(Prop const& p, uint64_t seed, uint64_t i) {
    return mix64(seed * 0x100000001b3ULL ^ hash_bytes(p.name.data(), p.name.size())) ^ mix64(i * 0x9e3779b97f4a7c15ULL + 77);
}

// Runs cases first, first+step, ..., last one after the other in one forked child, as a worker
// does. Needed when a failure depends on what ran before it in the same process.
inline Outcome run_sequence(Prop const& p, Opts const& o, Shm* sh, uint64_t seed, uint64_t first, uint64_t step, uint64_t last) {
    Prop q = p;
    static uint64_t s_seed, s_first, s_step, s_last;
    static PropFn   s_fn;
    static std::string s_name;
    s_seed = seed; s_first = first; s_step = step; s_last = last; s_fn = p.fn; s_name = p.name;
    q.fn = [](Src&, Ctx& c) {
        Prop me{s_name, s_fn};
        for (uint64_t i = s_first;; i += s_step) {
            Src src(case_seed(me, s_seed, i), c.shm);
            Ctx d;
            d.shm = c.shm;
            if (i == s_last) { s_fn(src, d); return; }
            try { s_fn(src, d); } catch (Fail&) {} catch (Discard&) {} catch (std::exception&) {}
        }
    };
    Opts oo     = o;
    oo.cpu_case = o.cpu_case * 4;
    return run_forked(q, oo, sh, nullptr, 1);
}

inline std::vector<uint64_t> shrink(Prop const& p, Opts const& o, Shm* sh, std::vector<uint64_t> best,
                                    int kind, Outcome& last) {
    double end   = now_wall() + o.shrink_s;
    int    tries = 0;
    Opts   oo    = o;
    // A case that hangs is expensive to replay: keep shrinking cheap.
    auto attempt = [&](std::vector<uint64_t> const& cand) {
        if (now_wall() > end || ++tries > 3000) return false;
        Outcome oc = run_forked(p, oo, sh, &cand, 0);
        if (oc.kind == kind) {
            std::vector<uint64_t> used(sh->choices, sh->choices + sh->nchoices);
            // strictly simpler: shorter, or same length and lexicographically smaller
            if (used.size() < best.size() || (used.size() == best.size() && used < best)) {
                best = used;
                last = oc;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now_wall() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now_wall() < end;) {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + len));
                if (attempt(cand)) { progress = true; continue; }
                cand = best;
                bool nz = false;
                for (size_t k = i; k < i + len; ++k) { nz = nz || cand[k]; cand[k] = 0; }
                if (nz && attempt(cand)) { progress = true; }
                i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && now_wall() < end; ++i) {
            while (i < best.size() && best[i] > 0) {
                auto cand = best;
                cand[i] /= 2;
                if (attempt(cand)) { progress = true; continue; }
                if (i >= best.size() || best[i] == 0) break;
                cand = best;
                cand[i] -= 1;
                if (attempt(cand)) { progress = true; continue; }
                // lower this one and delete the following (list length + element)
                if (i + 1 < best.size()) {
                    cand = best;
                    cand[i] -= 1;
                    cand.erase(cand.begin() + static_cast<long>(i) + 1);
                    if (attempt(cand)) { progress = true; continue; }
                }
                break;
            }
        }
    }
    return best;
}

inline std::string write_replay(Prop const& p, Opts const& o, std::vector<uint64_t> const& ch,
                                Outcome const& oc) {
    uint64_t    h    = hash_bytes(ch.data(), ch.size() * 8, hash_bytes(p.name.data(), p.name.size()));
    std::string path = o.replay_dir + "/" + o.tag + (o.tag.empty() ? "" : "-") + p.name +
                       strf("-%08x.replay", static_cast<unsigned>(h));
    std::ofstream f(path);
    f << "prop " << p.name << "\n";
    f << "choices " << ch.size() << "\n";
    for (uint64_t v : ch) f << v << "\n";
    std::stringstream ss(oc.msg + "\n--- case ---\n" + oc.desc);
    std::string       l;
    while (std::getline(ss, l)) f << "# " << l << "\n";
    return path;
}

struct Stats {
    uint64_t                        evals = 0, discards = 0, skipped = 0, nontriv_raw = 0;
    std::unordered_set<uint64_t>    keys;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double>   nums;
    std::vector<std::string>        samples;
};

inline void worker(Prop const& p, Opts const& o, Shm* sh, int w, std::string const& statfile) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    std::string errf = statfile + ".err";
    fd               = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    Stats  st;
    double t_end = now_wall() + o.wall;
    size_t n_samples = 0;
    auto   flush = [&] {
        std::ofstream f(statfile);
        f << st.evals << " " << st.discards << " " << st.skipped << " " << st.nontriv_raw << "\n";
        f << st.keys.size() << "\n";
        for (auto k : st.keys) f << k << "\n";
        f << st.labels.size() << "\n";
        for (auto& kv : st.labels) f << kv.second << " " << kv.first << "\n";
        f << st.nums.size() << "\n";
        f.precision(17);
        for (auto& kv : st.nums) f << kv.second << " " << kv.first << "\n";
        f << st.samples.size() << "\n";
        for (auto& s : st.samples) f << jesc(s) << "\n";
    };
    for (uint64_t i = sh->next_case; i < o.cases; i += static_cast<uint64_t>(o.jobs)) {
        if (now_wall() > t_end) { st.skipped += 1; sh->next_case = i + static_cast<uint64_t>(o.jobs); continue; }
        sh->cur_case = i;
        sh->in_case  = 1;
        sh->desc[0]  = 0;
        set_cpu_timer(o.cpu_case);
        uint64_t    cseed = case_seed(p, o.seed, i);
        Src         src(cseed, sh);
        Ctx         c;
        c.shm = sh;
        std::string msg;
        int         r = run_one(p.fn, src, c, msg);
        itimerval   left{};
        getitimer(ITIMER_PROF, &left);
        set_cpu_timer(0);
        double used = o.cpu_case - static_cast<double>(left.it_value.tv_sec) - static_cast<double>(left.it_value.tv_usec) * 1e-6;
        add_num(st.nums, "max CPU seconds of a case", used);
        sh->in_case   = 0;
        sh->next_case = i + static_cast<uint64_t>(o.jobs);
        if (r == 1) {
            flush();
            sh->in_case = 2;  // failing case: parent picks it up
            sh->cur_case = i;
            _exit(3);
        }
        if (r == 3) { st.discards++; continue; }
        st.evals += static_cast<uint64_t>(c.units);
        for (auto& l : c.labels) st.labels[l]++;
        for (auto& kv : c.nums) add_num(st.nums, kv.first, kv.second);
        if (c.nontriv) {
            st.nontriv_raw++;
            uint64_t k = c.key ? c.key
                               : hash_bytes(sh->choices, static_cast<size_t>(sh->nchoices) * 8);
            if (st.keys.insert(k).second && n_samples < 3 && !c.desc.empty() && c.desc.size() < 1500) {
                st.samples.push_back(c.desc);
                ++n_samples;
            }
        }
    }
    flush();
    (void)w;
    _exit(0);
}

// Returns true if the replay reproduces a failure at least once in three tries.
inline bool confirm(Prop const& p, Opts const& o, Shm* sh, std::vector<uint64_t> const& ch, Outcome& oc, bool cpu_limit) {
    Opts oo = o;
    if (cpu_limit) oo.cpu_case *= 4;  // a slow machine is not a hang
    for (int k = 0; k < (cpu_limit ? 1 : 3); ++k) {
        Outcome r = run_forked(p, oo, sh, &ch, 0);
        if (r.kind == 1 || r.kind == 2) { oc = r; return true; }
    }
    return false;
}

inline int do_run(Prop const& p, Opts const& o) {
    double t0 = now_wall();
    if (o.only != UINT64_MAX) {
        Shm* sh = make_shm();
        uint64_t cseed = case_seed(p, o.seed, o.only);
        Outcome oc = run_forked(p, o, sh, nullptr, cseed);
        printf("kind %d\n%s\n%s\n", oc.kind, oc.msg.c_str(), oc.desc.c_str());
        return oc.kind == 1 || oc.kind == 2;
    }
    std::vector<Shm*>        shms;
    std::vector<pid_t>       pids;
    std::vector<std::string> files;
    std::vector<uint64_t>    starts;  // first case of each worker process
    Stats                    tot;
    std::vector<std::string> viol;  // json objects
    int                      unreproduced = 0;
    std::string              unrep_msg;
    auto merge = [&](std::string const& fn) {
        std::ifstream f(fn);
        uint64_t      a, b, d, e, n;
        if (!(f >> a >> b >> d >> e)) return;
        tot.evals += a; tot.discards += b; tot.skipped += d; tot.nontriv_raw += e;
        f >> n;
        for (uint64_t k, i = 0; i < n; ++i) { f >> k; tot.keys.insert(k); }
        f >> n;
        std::string l;
        for (uint64_t k, i = 0; i < n; ++i) { f >> k; f.get(); std::getline(f, l); tot.labels[l] += k; }
        f >> n;
        for (uint64_t i = 0; i < n; ++i) { double v; f >> v; f.get(); std::getline(f, l); add_num(tot.nums, l, v); }
        f >> n;
        std::getline(f, l);
        for (uint64_t i = 0; i < n; ++i) { std::getline(f, l); tot.samples.push_back(l); }
        unlink(fn.c_str());
    };
    auto spawn = [&](int w) {
        pid_t pid = fork();
        if (pid == 0) worker(p, o, shms[static_cast<size_t>(w)], w, files[static_cast<size_t>(w)]);
        pids[static_cast<size_t>(w)] = pid;
    };
    Shm* rsh = make_shm();
    fflush(stdout);
    for (int w = 0; w < o.jobs; ++w) {
        shms.push_back(make_shm());
        shms.back()->next_case = static_cast<uint64_t>(w);
        files.push_back(strf("/tmp/pbt.%d.%d", getpid(), w));
        pids.push_back(0);
        starts.push_back(static_cast<uint64_t>(w));
        spawn(w);
    }
    int live = o.jobs;
    while (live > 0) {
        int   st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        int w = -1;
        for (int k = 0; k < o.jobs; ++k)
            if (pids[static_cast<size_t>(k)] == pid) w = k;
        if (w < 0) continue;
        Shm* sh = shms[static_cast<size_t>(w)];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            merge(files[static_cast<size_t>(w)]);
            unlink((files[static_cast<size_t>(w)] + ".err").c_str());
            --live;
            continue;
        }
        merge(files[static_cast<size_t>(w)]);
        // a failing or crashing case: choices are in shared memory
        std::vector<uint64_t> ch(sh->choices, sh->choices + sh->nchoices);
        Outcome               oc;
        bool                  slow = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        bool                  ok = confirm(p, o, rsh, ch, oc, slow);
        uint64_t              ci = sh->cur_case;
        if (ok) {
            // stop the others: one minimal counterexample per property function is enough
            for (int k = 0; k < o.jobs; ++k)
                if (k != w && pids[static_cast<size_t>(k)] > 0) kill(pids[static_cast<size_t>(k)], SIGKILL);
            while (waitpid(-1, &st, 0) > 0) {}
            for (int k = 0; k < o.jobs; ++k) {
                unlink(files[static_cast<size_t>(k)].c_str());
                unlink((files[static_cast<size_t>(k)] + ".err").c_str());
            }
            std::vector<uint64_t> used(rsh->choices, rsh->choices + rsh->nchoices);
            if (used.size() < ch.size()) ch = used;
            auto     best = shrink(p, o, rsh, ch, oc.kind, oc);
            Outcome  fin  = run_forked(p, o, rsh, &best, 0);
            if (fin.kind == 1 || fin.kind == 2) oc = fin;
            std::string path = write_replay(p, o, best, oc);
            viol.push_back("{\"prop\":" + jesc(p.name) + ",\"replay\":" + jesc(path) + ",\"msg\":" +
                           jesc(oc.msg) + ",\"case\":" + jesc(oc.desc.substr(0, 6000)) + strf(",\"index\":%llu}", static_cast<unsigned long long>(ci)));
            live = 0;
            break;
        }
        // It may depend on the cases before it in the same process.
        bool     seq = false;
        uint64_t J = static_cast<uint64_t>(o.jobs), first = ci;
        if (unreproduced < 2 && !slow)
            for (uint64_t back = 4; !seq; back *= 8) {
                uint64_t f0 = starts[static_cast<size_t>(w)];
                first       = ci >= f0 + back * J ? ci - back * J : f0;
                Outcome r   = run_sequence(p, o, rsh, o.seed, first, J, ci);
                if (r.kind == 1 || r.kind == 2) { seq = true; oc = r; }
                if (first == f0) break;
            }
        if (seq) {
            for (int k = 0; k < o.jobs; ++k)
                if (k != w && pids[static_cast<size_t>(k)] > 0) kill(pids[static_cast<size_t>(k)], SIGKILL);
            while (waitpid(-1, &st, 0) > 0) {}
            for (int k = 0; k < o.jobs; ++k) {
                unlink(files[static_cast<size_t>(k)].c_str());
                unlink((files[static_cast<size_t>(k)] + ".err").c_str());
            }
            while (first < ci) {  // shortest history that still fails
                uint64_t mid = first + ((ci - first) / J + 1) / 2 * J;
                Outcome  r   = run_sequence(p, o, rsh, o.seed, mid, J, ci);
                if (!(r.kind == 1 || r.kind == 2)) break;
                oc = r; first = mid;
            }
            std::string path = o.replay_dir + "/" + o.tag + (o.tag.empty() ? "" : "-") + p.name + strf("-seq%llu.replay", static_cast<unsigned long long>(ci));
            std::ofstream f(path);
            f << "sequence " << p.name << " " << o.seed << " " << first << " " << J << " " << ci << "\n# " << oc.msg << "\n";
            oc.msg += strf(" [after %llu earlier cases in the same process]", static_cast<unsigned long long>((ci - first) / J));
            viol.push_back("{\"prop\":" + jesc(p.name) + ",\"replay\":" + jesc(path) + ",\"msg\":" + jesc(oc.msg) + ",\"case\":" +
                           jesc(oc.desc.substr(0, 6000)) + strf(",\"index\":%llu}", static_cast<unsigned long long>(ci)));
            break;
        }
        ++unreproduced;
        unrep_msg = WIFSIGNALED(st) ? signame(WTERMSIG(st)) : strf("exit %d", WEXITSTATUS(st));
        unrep_msg += " " + errfile_head(files[static_cast<size_t>(w)] + ".err");
        if (unreproduced > 5) { --live; continue; }
        sh->next_case = ci + static_cast<uint64_t>(o.jobs);
        starts[static_cast<size_t>(w)] = sh->next_case;
        spawn(w);
    }
    std::string js = "{";
    js += strf("\"prop\":%s,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"nontrivial_raw\":%llu,\"discarded\":%llu,"
               "\"not_run_wall_budget\":%llu,\"unreproduced\":%d,\"wall_s\":%.2f,",
               jesc(p.name).c_str(), static_cast<unsigned long long>(tot.evals),
               static_cast<unsigned long long>(tot.keys.size()),
               static_cast<unsigned long long>(tot.nontriv_raw),
               static_cast<unsigned long long>(tot.discards),
               static_cast<unsigned long long>(tot.skipped), unreproduced, now_wall() - t0);
    if (unreproduced) js += "\"unreproduced_msg\":" + jesc(unrep_msg) + ",";
    js += "\"classes\":{";
    bool first = true;
    for (auto& kv : tot.labels) {
        js += (first ? "" : ",") + jesc(kv.first) + strf(":%llu", static_cast<unsigned long long>(kv.second));
        first = false;
    }
    js += "},\"nums\":{";
    first = true;
    for (auto& kv : tot.nums) {
        js += (first ? "" : ",") + jesc(kv.first) + strf(":%.17g", kv.second);
        first = false;
    }
    js += "},\"samples\":[";
    std::sort(tot.samples.begin(), tot.samples.end(), [](std::string const& a, std::string const& b) { return a.size() < b.size(); });
    std::vector<std::string> pickd;
    size_t ns = tot.samples.size();
    if (ns) { pickd.push_back(tot.samples[0]); if (ns > 2) pickd.push_back(tot.samples[ns / 2]); if (ns > 1) pickd.push_back(tot.samples[ns - 1]); }
    for (size_t i = 0; i < pickd.size(); ++i) js += (i ? "," : "") + pickd[i];
    js += "],\"violations\":[";
    for (size_t i = 0; i < viol.size(); ++i) js += (i ? "," : "") + viol[i];
    js += "]}\n";
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        f << js;
    }
    if (o.out.empty() || o.verbose) fputs(js.c_str(), stdout);
    return viol.empty() ? 0 : 1;
}

inline int do_replay(Opts const& o) {
    std::ifstream f(o.replay);
    std::string   w, name;
    size_t        n = 0;
    f >> w >> name;
    if (w == "sequence") {
        uint64_t seed, first, step, last;
        f >> seed >> first >> step >> last;
        for (auto& p : props())
            if (p.name == name) {
                Outcome oc  = run_sequence(p, o, make_shm(), seed, first, step, last);
                bool    bad = oc.kind == 1 || oc.kind == 2;
                printf("%s %s\n%s\n%s\n", name.c_str(), bad ? "FAILS" : "passes", oc.msg.c_str(), oc.desc.c_str());
                return bad ? 1 : 0;
            }
        return 2;
    }
    f >> w >> n;
    std::vector<uint64_t> ch(n);
    for (auto& v : ch) f >> v;
    for (auto& p : props())
        if (p.name == name) {
            Shm*    sh = make_shm();
            Outcome oc;
            bool    bad = confirm(p, o, sh, ch, oc, false);
            printf("%s %s\n%s\n%s\n", name.c_str(), bad ? "FAILS" : "passes", oc.msg.c_str(), oc.desc.c_str());
            return bad ? 1 : 0;
        }
    fprintf(stderr, "unknown prop %s\n", name.c_str());
    return 2;
}

inline int pbt_main(int argc, char** argv) {
    Opts o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto        v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--list") {
            for (auto& p : props()) puts(p.name.c_str());
            return 0;
        } else if (a == "--run") o.run = v();
        else if (a == "--cases") o.cases = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--jobs") o.jobs = atoi(v().c_str());
        else if (a == "--out") o.out = v();
        else if (a == "--tag") o.tag = v();
        else if (a == "--replay-dir") o.replay_dir = v();
        else if (a == "--replay") o.replay = v();
        else if (a == "--cpu") o.cpu_case = atof(v().c_str());
        else if (a == "--wall") o.wall = atof(v().c_str());
        else if (a == "--shrink") o.shrink_s = atof(v().c_str());
        else if (a == "--only") o.only = strtoull(v().c_str(), nullptr, 10);
        else if (a == "-v") o.verbose = true;
    }
    if (!o.replay.empty()) return do_replay(o);
    for (auto& p : props())
        if (p.name == o.run) return do_run(p, o);
    fprintf(stderr, "unknown prop '%s'\n", o.run.c_str());
    return 2;
}

}  // namespace pbt

#define PBT_MAIN \
    int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }

#endif
