// Files and loading: C17 (formats), C18 (malformed input), C19 (solution files), C20 (loading options).
#include "iox.hpp"
#include "comp.hpp"
using namespace cftx;
using namespace iox;
using comp::ints;

static std::vector<int> some_cover(pbt::Src& s, Inst const& in, bool* ok = nullptr) {
    std::vector<int>  ord(in.cols.size()), sol;
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0);
    std::iota(ord.begin(), ord.end(), 0);
    s.shuffle(ord);
    for (int j : ord) {
        bool useful = s.chance(1, 10);
        for (int i : in.cols[static_cast<size_t>(j)]) useful = useful || !cov[static_cast<size_t>(i)];
        if (!useful) continue;
        for (int i : in.cols[static_cast<size_t>(j)]) cov[static_cast<size_t>(i)] = 1;
        sol.push_back(j);
    }
    if (ok) *ok = std::find(cov.begin(), cov.end(), 0) == cov.end();
    return sol;
}

PBT_PROP(formats) {  // C17
    int              f = static_cast<int>(s.below(4));
    Inst             in = gen_file_inst(s);
    Style            t = style(s);
    std::vector<int> init = some_cover(s, in);
    if (s.chance(1, 6)) init.clear();
    Lines       ls = to_lines(s, t, f, in, init);
    std::string text = render(s, t, ls);
    c.describe(std::string(fmt_name(f)) + " file:\n" + clip(text));
    MemFile mf;
    mf.set(text);
    if (f == CVRP && init.empty() && !t.final_newline) {  // the last line is then missing: an error
        bool threw = false;
        try { parse(f, mf.path); } catch (std::exception&) { threw = true; }
        (void)threw;
        throw pbt::Discard{};
    }
    Solution is;
    Instance p;
    try { p = parse(f, mf.path, &is); } catch (std::exception& e) { c.fail(std::string("valid ") + fmt_name(f) + " file rejected: " + e.what()); }
    auto e = same_inst(in, expected_cols(f, in), p);
    if (!e.empty()) c.fail(std::string(fmt_name(f)) + ": " + e);
    e = coherent(p);
    if (!e.empty()) c.fail(std::string(fmt_name(f)) + ": " + e);
    if (f == CVRP) {
        if (ints(is.idxs) != init) c.fail("initial solution read as " + gen::show(ints(is.idxs)) + ", written " + gen::show(init));
        double cost = gen::cost_of(in, init);
        c.check(std::fabs(static_cast<double>(is.cost) - cost) <= (in.exact ? 0 : 1e-5 * cost + 1e-6), "initial solution cost read as %.9g, expected %.9g", static_cast<double>(is.cost), cost);
    }
    c.cls(std::string("format ") + fmt_name(f));
    if (!t.plain) c.cls("irregular spacing");
    if (t.crlf) c.cls("CRLF lines");
    if (!t.final_newline) c.cls("no final newline");
    c.nontrivial(in.nrows >= 2 && in.ncols() >= 2);
}

// ---- C18 -------------------------------------------------------------------------------------
static const char* junk_token(pbt::Src& s) {
    static const char* j[] = {"x", "abc", "-", "--3", "#", "e5", "'1'", "NaNs", "?7", ".", "+", "\xff\xfe"};
    return j[s.below(sizeof j / sizeof *j)];
}
static bool accepts(int f, std::string const& path, Instance& out, Solution& is) {
    try {
        out = parse(f, path, &is);
        return true;
    } catch (std::exception&) { return false; }
}

PBT_PROP(corrupt) {  // one token replaced by something that cannot stand there: must be rejected
    int   f  = static_cast<int>(s.below(4));
    Inst  in = gen_file_inst(s);
    Style t  = style(s);
    bool  cov = false;
    auto  init = some_cover(s, in, &cov);
    Lines ls = to_lines(s, t, f, in, init);
    std::string what;
    auto  pick_line = [&](size_t lo) -> size_t { return lo >= ls.size() ? ls.size() : lo + s.below(ls.size() - lo); };
    auto  I = [](long long v) { return std::to_string(v); };
    if (f == MPS) {
        // sections, row names, values
        std::vector<size_t> rows, cols;
        size_t              sec = 0;
        std::string         obj;
        for (size_t l = 0; l < ls.size(); ++l) {
            if (ls[l][0] == "ROWS") sec = 1;
            else if (ls[l][0] == "COLUMNS") sec = 2;
            else if (ls[l].size() == 1 && ls[l][0] == "RHS") sec = 3;
            else if (sec == 1) { if (ls[l][0] == "N") obj = ls[l][1]; else rows.push_back(l); }
            else if (sec == 2 && ls[l][0] != "MARKER") cols.push_back(l);
        }
        switch (s.below(5)) {
            case 0: {
                if (cols.empty()) throw pbt::Discard{};
                auto& L = ls[s.pick(cols)];
                size_t k = 1 + 2 * s.below((L.size() - 1) / 2);
                what = "row name " + L[k] + " replaced";
                L[k] = "nosuchrow";
                break;
            }
            case 1: {
                if (rows.empty()) throw pbt::Discard{};
                auto l = s.pick(rows);
                what = "row " + ls[l][1] + " loses its name";
                ls[l].pop_back();
                break;
            }
            case 2: {
                if (cols.empty()) throw pbt::Discard{};
                auto& L = ls[s.pick(cols)];
                if (L.size() <= 3) throw pbt::Discard{};
                what = "value missing on a line of column " + L[0];
                L.pop_back();
                break;
            }
            case 3: {  // objective value
                std::vector<std::pair<size_t, size_t>> pos;
                for (size_t l : cols) for (size_t k = 1; k + 1 < ls[l].size(); k += 2) if (ls[l][k] == obj && k > 1) pos.push_back({l, k + 1});
                if (pos.empty()) throw pbt::Discard{};
                auto p = s.pick(pos);
                what = "objective value replaced";
                ls[p.first][p.second] = s.pick({"abc", "1e99999", "nan", "inf", "x1"});
                break;
            }
            default: {
                const char* sname = s.pick({"ROWS", "COLUMNS"});
                what = std::string("section ") + sname + " missing";
                for (size_t l = 0; l < ls.size(); ++l) if (ls[l].size() == 1 && ls[l][0] == sname) { ls.erase(ls.begin() + static_cast<long>(l)); break; }
                break;
            }
        }
    } else {
        int kind = static_cast<int>(s.below(4));
        if (kind == 0) {  // any number becomes junk
            size_t l = pick_line(0);
            if (ls[l].empty()) throw pbt::Discard{};
            size_t k = s.below(ls[l].size());
            const char* j = junk_token(s);
            what = pbt::strf("line %zu token %zu replaced by %s", l, k, j);
            ls[l][k] = j;
        } else if (kind == 1) {  // an index out of range
            struct Pos { size_t l, k; };
            std::vector<Pos> pos;
            if (f == RAIL) for (size_t l = 1; l < ls.size(); ++l) for (size_t k = 2; k < ls[l].size(); ++k) pos.push_back({l, k});
            if (f == CVRP) for (size_t l = 1; l < ls.size(); ++l) for (size_t k = (l + 1 < ls.size() ? 2 : 0); k < ls[l].size(); ++k) pos.push_back({l, k});
            if (f == SCP) {
                // walk as a reader does: the lines of each row after its size
                size_t l = 1, left = static_cast<size_t>(in.ncols());
                while (left > 0) { left -= ls[l].size(); ++l; }
                while (l < ls.size()) {
                    size_t n = static_cast<size_t>(std::stoll(ls[l][0]));
                    ++l;
                    while (n > 0) { for (size_t k = 0; k < ls[l].size(); ++k) pos.push_back({l, k}); n -= ls[l].size(); ++l; }
                }
            }
            if (pos.empty()) throw pbt::Discard{};
            Pos       p = s.pick(pos);
            bool      colidx = f == SCP || (f == CVRP && p.l + 1 == ls.size());
            long long lim = colidx ? in.ncols() : in.nrows, base = f == CVRP ? 0 : 1;
            std::string v = s.pick({I(base - 1), I(lim + base), I(-1), I(-lim), I(lim + base + 1), I(32767), I(-32768), I(65536 + base), I(2147483647), I(4294967296LL + base), I(1LL << 40), std::string("99999999999999999999999")});
            if (v == I(32767) && lim > 32767) throw pbt::Discard{};
            long long vv = v.size() > 18 ? 1LL << 60 : std::stoll(v);
            if (vv >= base && vv < lim + base) throw pbt::Discard{};
            what = pbt::strf("line %zu token %zu: index %s out of range", p.l, p.k, v.c_str());
            ls[p.l][p.k] = v;
        } else if (kind == 2) {  // an index repeated within a column
            size_t l = pick_line(1);
            if (f == SCP) {
                std::vector<size_t> multi;
                size_t q = 1, left = static_cast<size_t>(in.ncols());
                while (left > 0) { left -= ls[q].size(); ++q; }
                while (q < ls.size()) { size_t n = static_cast<size_t>(std::stoll(ls[q][0])); ++q; while (n > 0) { if (ls[q].size() >= 2) multi.push_back(q); n -= ls[q].size(); ++q; } }
                if (multi.empty()) throw pbt::Discard{};
                l = s.pick(multi);
                ls[l][1] = ls[l][0];
            } else {
                if (l >= ls.size() || ls[l].size() < 4 || (f == CVRP && l + 1 == ls.size())) throw pbt::Discard{};
                ls[l][3] = ls[l][2];
            }
            what = pbt::strf("line %zu repeats an index", l);
        } else {  // count or cost line damage
            if (f == RAIL) {
                if (ls.size() < 2) throw pbt::Discard{};
                size_t l = pick_line(1);
                switch (s.below(3)) {
                    case 0: ls[l][1] = I(std::stoll(ls[l][1]) + 1); what = pbt::strf("line %zu count too large", l); break;
                    case 1: if (ls[l].size() < 3) throw pbt::Discard{}; ls[l].pop_back(); what = pbt::strf("line %zu loses an entry", l); break;
                    default: ls[l].push_back("1"); what = pbt::strf("line %zu gains an entry", l); break;
                }
            } else if (f == CVRP) {
                if (ls.size() < 3) throw pbt::Discard{};
                size_t l = 1 + s.below(ls.size() - 2);
                if (s.chance(1, 2)) {
                    ls[l].resize(1);
                    what = pbt::strf("line %zu keeps only its cost", l);
                } else {  // the second number is the cost of a longer route: never the smaller one
                    double x  = std::stod(ls[l][0]);
                    ls[l][1] = x > 1e-3 && x < 1e6 && s.chance(1, 2) ? pbt::strf("%.4f", x * 0.5) : "-1";
                    what = pbt::strf("line %zu has a second cost below its first", l);
                }
            } else {
                ls[0].push_back("3");
                what = "third number on the first line";
            }
        }
    }
    std::string text = render(s, t, ls);
    c.describe(std::string(fmt_name(f)) + " " + what + ":\n" + clip(text));
    MemFile mf;
    mf.set(text);
    Instance p;
    Solution is;
    if (accepts(f, mf.path, p, is)) c.fail(std::string(fmt_name(f)) + " accepted although " + what);
    c.cls(std::string("format ") + fmt_name(f));
    c.nontrivial();
}

PBT_PROP(truncated) {  // whole tokens or lines missing at the end: rejected or the same instance
    int   f  = static_cast<int>(s.below(4));
    Inst  in = gen_file_inst(s);
    Style t  = style(s);
    auto  init = some_cover(s, in);
    Lines ls = to_lines(s, t, f, in, init);
    size_t keep_lines = s.below(ls.size());
    size_t keep_toks  = s.below(ls[keep_lines].size() + 1);
    if (s.chance(1, 3)) { keep_lines = ls.size() - 1; keep_toks = s.below(std::max<size_t>(1, ls[keep_lines].size())); }
    ls.resize(keep_lines + 1);
    ls[keep_lines].resize(std::min(keep_toks, ls[keep_lines].size()));
    if (ls[keep_lines].empty()) ls.pop_back();
    if (ls.empty()) t.final_newline = false;
    std::string text = render(s, t, ls);
    c.describe(std::string(fmt_name(f)) + " truncated:\n" + clip(text));
    MemFile mf;
    mf.set(text);
    Instance p;
    Solution is;
    bool     ok = accepts(f, mf.path, p, is);
    if (ok) {
        auto e = same_inst(in, expected_cols(f, in), p);
        if (!e.empty()) c.fail(std::string("truncated ") + fmt_name(f) + " file accepted: " + e);
        c.cls("cut after the instance data");
    } else c.cls("rejected");
    c.cls(std::string("format ") + fmt_name(f));
    c.nontrivial();
}

PBT_PROP(bytes) {  // mutated bytes: an exception or a coherent instance
    int   f  = static_cast<int>(s.below(5));
    Inst  in = gen::gen_inst(s, {8, 16});
    Style t  = style(s);
    std::string text;
    if (f == 4) {  // solution file
        text = pbt::strf("%g", static_cast<double>(s.range(0, 100)));
        for (size_t n = s.below(8); n > 0; --n) text += pbt::strf(" %d", static_cast<int>(s.below(30)));
        text += "\n";
    } else text = render(s, t, to_lines(s, t, f, in, some_cover(s, in)));
    static const char* ins[] = {"-", "0", "9", " ", "\n", "\r", "\t", ".", "e", "E5", "-1", "32768", "2147483648", "99999999999999999999", "1e40", "inf", "nan", "0x10", "\xff", "ROWS", "COLUMNS", "RHS", "N ", "G ", "BOUNDS\n", "ENDATA\n", "\n\n", "   ", "32767 2147483647\n", "0 0\n", "-5 3\n"};
    int nm = 1 + static_cast<int>(s.below(5));
    for (int k = 0; k < nm; ++k) {
        size_t at = s.below(text.size() + 1);
        switch (s.below(7)) {
            case 0: if (!text.empty()) text[std::min(at, text.size() - 1)] = static_cast<char>(s.below(256)); break;
            case 1: text.insert(at, ins[s.below(sizeof ins / sizeof *ins)]); break;
            case 2: text.erase(at, 1 + s.below(8)); break;
            case 3: text.resize(at); break;
            case 4: { size_t n = s.below(std::min<size_t>(40, text.size() - at) + 1); text.insert(s.below(text.size() + 1), text.substr(at, n)); break; }
            case 5: {  // swap two lines
                auto p = text.find('\n', at), q = text.find('\n');
                if (p != std::string::npos && q != std::string::npos && q < p) { auto l = text.substr(0, q + 1); text.erase(0, q + 1); text.insert(std::min(p - q, text.size()), l); }
                break;
            }
            case 6: if (!text.empty()) { size_t p = std::min(at, text.size() - 1); if (isdigit(static_cast<unsigned char>(text[p]))) text[p] = static_cast<char>('0' + s.below(10)); } break;
        }
    }
    c.describe(std::string(f == 4 ? "solution" : fmt_name(f)) + " bytes:\n" + clip(text));
    MemFile mf;
    mf.set(text);
    Instance p;
    Solution is;
    bool     ok;
    if (f == 4) {
        try {
            is = parse_solution(mf.path);
            ok = true;
        } catch (std::exception&) { ok = false; }
        if (ok) c.check(std::isfinite(is.cost), "solution cost %g", static_cast<double>(is.cost));
    } else {
        ok = accepts(f, mf.path, p, is);
        if (ok) {
            auto e = coherent(p);
            if (!e.empty()) c.fail(std::string("accepted, but ") + e);
            for (auto j : is.idxs) c.check(j >= 0 && static_cast<size_t>(j) < p.cols.size(), "initial solution column %d of %d", static_cast<int>(j), static_cast<int>(p.cols.size()));
        }
    }
    c.cls(ok ? "accepted" : "rejected");
    c.cls(std::string("format ") + (f == 4 ? "solution" : fmt_name(f)));
    c.nontrivial();
}

// ---- C19 -------------------------------------------------------------------------------------
static float any_float(pbt::Src& s) {
    float f;
    switch (s.below(6)) {
        case 0: return static_cast<float>(s.range(0, 100000));
        case 1: return static_cast<float>(s.range(-1000, 100000)) * 0.25f;
        case 2: return static_cast<float>(s.unit() * 1000);
        case 3: return static_cast<float>(std::ldexp(1.0 + s.unit(), static_cast<int>(s.range(0, 250)) - 125));
        default: {
            uint32_t b = static_cast<uint32_t>(s.below(1ULL << 32));
            memcpy(&f, &b, 4);
            return std::isfinite(f) ? f : 1.0f;
        }
    }
}
static Solution any_solution(pbt::Src& s) {
    Solution sol;
    sol.cost = any_float(s);
    size_t n = s.chance(1, 10) ? static_cast<size_t>(s.range(0, 4000)) : static_cast<size_t>(s.skewed(0, 60));
    int64_t hi = s.pick({10LL, 1000LL, 100000LL, 2147483647LL});
    for (size_t k = 0; k < n; ++k) sol.idxs.push_back(static_cast<cidx_t>(s.range(0, hi)));
    return sol;
}
PBT_PROP(solution) {  // C19
    Solution sol = any_solution(s);
    MemFile  mf;
    int      prev = static_cast<int>(s.below(4));
    if (prev == 1) mf.set(std::string(static_cast<size_t>(s.range(1, 60000)), '7'));
    if (prev == 2) { Solution o = any_solution(s); write_solution(mf.path, o); }
    if (prev == 3) mf.set("garbage\n\n\n1 2 3\n");
    c.describe(pbt::strf("cost %.9g, ", static_cast<double>(sol.cost)) + gen::show(ints(sol.idxs)));
    write_solution(mf.path, sol);
    Solution r = parse_solution(mf.path);
    c.check(memcmp(&r.cost, &sol.cost, sizeof(real_t)) == 0, "cost %.9g read back as %.9g", static_cast<double>(sol.cost), static_cast<double>(r.cost));
    if (r.idxs != sol.idxs) c.fail("columns " + gen::show(ints(sol.idxs)) + " read back as " + gen::show(ints(r.idxs)) + " from " + clip(mf.get(), 300));
    // writing what was read changes nothing
    auto text = mf.get();
    MemFile m2;
    write_solution(m2.path, r);
    c.require(m2.get() == text, "rewriting the solution gives another file");
    c.cls(prev ? "file existed" : "fresh file");
    c.cls(text.size() > 8000 ? "larger than one buffer" : "small file");
    c.nontrivial(sol.idxs.size() >= 2);
}
PBT_PROP(write_fault) {  // C19: the device stops accepting bytes at any point
    Solution sol = any_solution(s);
    MemFile  mf, ref;
    write_solution(ref.path, sol);
    size_t full = ref.get().size();
    c.describe(pbt::strf("%zu bytes, cost %.9g, %zu columns", full, static_cast<double>(sol.cost), sol.idxs.size()));
    int      kind = static_cast<int>(s.below(8));
    bool     threw = false;
    auto     attempt = [&](std::string const& path) {
        try { write_solution(path, sol); } catch (std::exception&) { threw = true; }
    };
    if (kind == 0) {
        attempt("/dev/full");
        c.require(threw, "writing to a full device is not reported");
        c.cls("full device");
    } else if (kind == 1) {
        attempt(s.pick({std::string("/nonexistent-dir/x.sol"), std::string("/proc"), std::string("/dev/null/x"), std::string("")}));
        c.require(threw, "a file that cannot be opened is not reported");
        c.cls("cannot open");
    } else {
        size_t lim = s.chance(1, 3) ? (full ? full - 1 - std::min<size_t>(full - 1, s.below(3)) : 0) : s.below(full + 2);
        signal(SIGXFSZ, SIG_IGN);
        rlimit old;
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit now = old;
        now.rlim_cur = lim;
        setrlimit(RLIMIT_FSIZE, &now);
        attempt(mf.path);
        setrlimit(RLIMIT_FSIZE, &old);
        bool complete = mf.get() == ref.get();
        if (!threw && !complete) c.fail(pbt::strf("only %zu of %zu bytes could be written and nothing was reported", mf.get().size(), full));
        if (lim >= full) c.check(!threw && complete, "a complete write of %d bytes is reported as failed", static_cast<int>(full));
        c.cls(lim < full ? "write stopped early" : "write fits");
    }
    c.nontrivial();
}

// ---- C20 -------------------------------------------------------------------------------------
PBT_PROP(loading) {
    int   f  = static_cast<int>(s.below(4));
    Inst  in = gen_file_inst(s);
    Style t  = style(s);
    bool  cov = false;
    auto  init = some_cover(s, in, &cov);
    if (!cov) throw pbt::Discard{};
    t.final_newline = true;
    std::string text = render(s, t, to_lines(s, t, f, in, init));
    MemFile     mf, sf;
    mf.set(text);
    Environment env;
    env.verbose        = 0;
    env.parser         = fmt_name(f);
    env.inst_path      = mf.path;
    env.use_unit_costs = s.chance(1, 2);
    bool has_init      = s.chance(2, 3);
    auto given         = some_cover(s, in);
    s.shuffle(given);
    double total = gen::cost_of(in, given), written = total;
    std::string what = has_init ? "valid initial solution" : "no initial solution file";
    int  bad = has_init && s.chance(1, 3) ? 1 + static_cast<int>(s.below(4)) : 0;
    if (bad) {
        if (given.empty()) throw pbt::Discard{};
        switch (bad) {
            case 1: given[s.below(given.size())] = static_cast<int>(s.pick({(int64_t)in.ncols(), (int64_t)in.ncols() + 5, (int64_t)-1, (int64_t)2147483647})); what = "column out of range"; break;
            case 2: given.push_back(given[s.below(given.size())]); written = gen::cost_of(in, given); what = "repeated column"; break;
            case 3: {
                given.erase(given.begin() + static_cast<long>(s.below(given.size())));
                std::vector<char> cv(static_cast<size_t>(in.nrows), 0);
                for (int j : given) for (int i : in.cols[static_cast<size_t>(j)]) cv[static_cast<size_t>(i)] = 1;
                if (given.empty() || std::find(cv.begin(), cv.end(), 0) == cv.end()) throw pbt::Discard{};
                written = gen::cost_of(in, given);
                what = "uncovered row";
                break;
            }
            default:
                if (env.use_unit_costs) throw pbt::Discard{};
                written = gen::tofloat(total * s.pick({0.5, 2.0, 1.01, 0.99}) + s.pick({1.0, 5.0}));
                if (std::fabs(written - total) <= 2e-3 * std::max(1.0, total)) throw pbt::Discard{};
                what = "wrong cost";
        }
    }
    if (has_init) {
        std::string st = pbt::strf("%.9g", written);
        for (int j : given) st += pbt::strf(" %d", j);
        sf.set(st + "\n");
        env.initsol_path = sf.path;
    }
    c.describe(pbt::strf("%s, unit costs %d, %s ", fmt_name(f), env.use_unit_costs, what.c_str()) + gen::show(given) + "\n" + clip(text));
    FileData d;
    bool     threw = false;
    std::string err;
    try { d = parse_inst_and_initsol(env); } catch (std::exception& e) { threw = true; err = e.what(); }
    if (bad) {
        c.check(threw, "initial solution accepted: %s", what.c_str());
        c.cls("rejected: " + what);
        c.nontrivial();
        return;
    }
    if (threw) c.fail("valid input rejected: " + err);
    Inst ex = in;
    if (env.use_unit_costs) ex.costs.assign(ex.costs.size(), 1.0);
    auto e = same_inst(ex, expected_cols(f, in), d.inst);
    if (!e.empty()) c.fail(e);
    std::vector<int> want = has_init ? given : f == CVRP ? init : std::vector<int>();
    if (ints(d.init_sol.idxs) != want) c.fail("initial solution " + gen::show(ints(d.init_sol.idxs)) + " instead of " + gen::show(want));
    double wc = env.use_unit_costs ? static_cast<double>(want.size()) : gen::cost_of(in, want);
    if (!want.empty()) c.check(std::fabs(static_cast<double>(d.init_sol.cost) - wc) <= (in.exact || env.use_unit_costs ? 0 : 1e-5 * wc + 1e-6), "initial solution costs %.9g instead of %.9g", static_cast<double>(d.init_sol.cost), wc);
    c.cls(env.use_unit_costs ? "unit costs" : "own costs");
    c.cls(what);
    c.cls(std::string("format ") + fmt_name(f));
    c.nontrivial(in.nrows >= 2 && in.ncols() >= 2);
}
PBT_PROP(unknown_parser) {
    Inst        in = gen::gen_inst(s, {5, 8});
    Style       t = style(s);
    MemFile     mf;
    mf.set(render(s, t, to_lines(s, t, RAIL, in, {})));
    Environment env;
    env.verbose   = 0;
    env.inst_path = s.chance(1, 8) ? "/nonexistent/file" : mf.path;
    std::string nm = s.pick({"rail", "RAIL ", "", "RAI", "RAILS", "XML", "scp", "Mps", "CVRP1", "SCPX"});
    if (env.inst_path != mf.path) nm = s.pick({"RAIL", "SCP", "CVRP", "MPS"});
    env.parser = nm;
    c.describe("parser '" + nm + "' on " + env.inst_path);
    bool threw = false;
    try { parse_inst_and_initsol(env); } catch (std::exception&) { threw = true; }
    c.check(threw, "parser '%s' accepted", nm.c_str());
    c.nontrivial();
}
PBT_MAIN
