// Writers for the instance formats, independent of the code under test, plus file helpers.
#ifndef VERIF_IOX_HPP
#define VERIF_IOX_HPP
#include <sys/mman.h>
#include <sys/syscall.h>

#include "cftx.hpp"
#include "core/parsing.hpp"

namespace iox {
using gen::Inst;

// An anonymous in-memory file reachable by path; vanishes with the process.
struct MemFile {
    int         fd;
    std::string path;
    MemFile() {
        fd   = static_cast<int>(syscall(SYS_memfd_create, "verif", 0u));
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~MemFile() { close(fd); }
    MemFile(MemFile const&)            = delete;
    MemFile& operator=(MemFile const&) = delete;
    void set(std::string const& s) {
        if (ftruncate(fd, 0) != 0) throw pbt::Discard{};
        lseek(fd, 0, SEEK_SET);
        size_t done = 0;
        while (done < s.size()) {
            ssize_t n = write(fd, s.data() + done, s.size() - done);
            if (n <= 0) throw pbt::Discard{};
            done += static_cast<size_t>(n);
        }
    }
    std::string get() {
        std::string s;
        char        b[4096];
        lseek(fd, 0, SEEK_SET);
        for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, static_cast<size_t>(n));
        return s;
    }
};

struct Style {
    bool plain, crlf, final_newline, tabs;
    int  num;  // cost formatting
};
inline Style style(pbt::Src& s) {
    Style t;
    t.plain         = s.chance(1, 2);
    t.crlf          = !t.plain && s.chance(1, 4);
    t.tabs          = !t.plain && s.chance(1, 3);
    t.final_newline = !s.chance(1, 4);
    t.num           = static_cast<int>(s.below(4));
    return t;
}
inline std::string num(Style const& t, double v) {
    switch (t.num) {
        case 1: { auto r = pbt::strf("%.9g", v); return r.find_first_of(".e") == std::string::npos ? r + ".0" : r; }
        case 2: return pbt::strf("%.9e", v);
        case 3: return pbt::strf("%.20g", v);
        default: return pbt::strf("%.9g", v);
    }
}

// A file as lines of tokens, so that spacing, truncation and corruption can be applied to tokens.
using Lines = std::vector<std::vector<std::string>>;

inline std::string render(pbt::Src& s, Style const& t, Lines const& ls) {
    std::string o;
    auto        ws = [&](bool may_be_empty) {
        if (t.plain) return std::string(may_be_empty ? "" : " ");
        std::string r;
        size_t      n = may_be_empty ? s.below(3) : 1 + s.below(3);
        for (size_t k = 0; k < n; ++k) r += t.tabs && s.chance(1, 2) ? '\t' : ' ';
        return r;
    };
    for (size_t l = 0; l < ls.size(); ++l) {
        o += ws(true);
        for (size_t k = 0; k < ls[l].size(); ++k) {
            if (k) o += ws(false);
            o += ls[l][k];
        }
        o += ws(true);
        if (l + 1 < ls.size() || t.final_newline) o += t.crlf ? "\r\n" : "\n";
    }
    return o;
}

enum Fmt { RAIL, SCP, CVRP, MPS };
inline const char* fmt_name(int f) {
    static const char* n[] = {CFT_RAIL_PARSER, CFT_SCP_PARSER, CFT_CVRP_PARSER, CFT_MPS_PARSER};
    return n[f];
}

// Splits tokens over lines at random.
inline void split_lines(pbt::Src& s, std::vector<std::string> const& toks, Lines& out) {
    size_t per = s.chance(1, 2) ? 12 : 1 + s.below(15);
    for (size_t k = 0; k < toks.size();) {
        size_t n = s.chance(1, 3) ? 1 + s.below(per) : per;
        out.emplace_back();
        for (; n > 0 && k < toks.size(); --n, ++k) out.back().push_back(toks[k]);
    }
}

inline Lines to_lines(pbt::Src& s, Style const& t, int f, Inst const& in, std::vector<int> const& init_sol) {
    Lines ls;
    auto  I = [](long long v) { return std::to_string(v); };
    if (f != MPS) ls.push_back({I(in.nrows), I(in.ncols())});
    switch (f) {
        case RAIL:
            for (int j = 0; j < in.ncols(); ++j) {
                auto const& c = in.cols[static_cast<size_t>(j)];
                ls.push_back({num(t, in.costs[static_cast<size_t>(j)]), I(static_cast<long long>(c.size()))});
                for (int i : c) ls.back().push_back(I(i + 1));
            }
            break;
        case SCP: {
            std::vector<std::string> costs;
            for (double c : in.costs) costs.push_back(num(t, c));
            split_lines(s, costs, ls);
            std::vector<std::vector<int>> rows(static_cast<size_t>(in.nrows));
            for (int j = 0; j < in.ncols(); ++j)
                for (int i : in.cols[static_cast<size_t>(j)]) rows[static_cast<size_t>(i)].push_back(j);
            bool shuf = s.chance(1, 3);
            for (auto& r : rows) {
                if (shuf) s.shuffle(r);
                ls.push_back({I(static_cast<long long>(r.size()))});
                std::vector<std::string> tk;
                for (int j : r) tk.push_back(I(j + 1));
                split_lines(s, tk, ls);
            }
            break;
        }
        case CVRP:
            for (int j = 0; j < in.ncols(); ++j) {
                double c = in.costs[static_cast<size_t>(j)];
                ls.push_back({num(t, c), num(t, s.chance(1, 2) ? c : gen::tofloat(c * 1.5 + 1))});
                for (int i : in.cols[static_cast<size_t>(j)]) ls.back().push_back(I(i));
            }
            ls.emplace_back();
            for (int j : init_sol) ls.back().push_back(I(j));
            break;
        case MPS: {
            bool spaced = s.chance(1, 2);
            if (s.chance(3, 4)) ls.push_back({"NAME", "test"});
            for (size_t k = s.below(3); k > 0; --k) ls.push_back({"*", "comment"});
            ls.push_back({"ROWS"});
            std::string              obj = s.pick({"OBJ", "COST", "obj", "z"});
            std::string              pre = s.pick({"R", "row", "c_", "7"});
            std::vector<std::string> names;
            for (int i = 0; i < in.nrows; ++i) names.push_back(pre + I(spaced ? i * 3 : i));
            bool obj_last = s.chance(1, 4);
            if (!obj_last) ls.push_back({"N", obj});
            for (auto& n : names) ls.push_back({s.pick({"G", "G", "E", "L"}), n});
            if (obj_last) ls.push_back({"N", obj});
            ls.push_back({"COLUMNS"});
            bool   markers = s.chance(1, 3);
            if (markers) ls.push_back({"MARKER", "'MARKER'", "'INTORG'"});
            size_t per = 1 + s.below(s.chance(1, 2) ? 2 : 4);
            for (int j = 0; j < in.ncols(); ++j) {
                auto const&                                      c = in.cols[static_cast<size_t>(j)];
                std::vector<std::pair<std::string, std::string>> ent;
                for (int i : c) ent.push_back({names[static_cast<size_t>(i)], "1"});
                double cost = in.costs[static_cast<size_t>(j)];
                // the objective coefficient may come anywhere and may be absent when it is zero
                if (cost != 0 || ent.empty() || s.chance(1, 2))
                    ent.insert(ent.begin() + static_cast<long>(s.chance(1, 3) ? s.below(ent.size() + 1) : 0), {obj, num(t, cost)});
                std::string name = "x" + I(j + 1);
                for (size_t k = 0; k < ent.size();) {
                    ls.push_back({name});
                    for (size_t n = 0; n < per && k < ent.size(); ++n, ++k) { ls.back().push_back(ent[k].first); ls.back().push_back(ent[k].second); }
                }
            }
            if (markers) ls.push_back({"MARKER", "'MARKER'", "'INTEND'"});
            ls.push_back({"RHS"});
            std::string rhs = s.pick({"rhs", "RHS"});
            for (size_t i = 0; i < names.size();) {
                ls.push_back({rhs});
                for (size_t n = 0; n < per && i < names.size(); ++n, ++i) { ls.back().push_back(names[i]); ls.back().push_back("1"); }
            }
            if (s.chance(1, 2)) {
                ls.push_back({"BOUNDS"});
                if (in.ncols()) ls.push_back({"UP", "bnd", "x1", "1"});
            }
            ls.push_back({"ENDATA"});
            break;
        }
    }
    return ls;
}

inline Inst gen_file_inst(pbt::Src& s) {
    static const int szr[] = {3, 10, 10, 30, 60}, szc[] = {6, 30, 60, 100, 200};
    size_t           z = s.below(5);
    Inst             in = gen::gen_inst(s, {szr[z], szc[z]});
    if (s.chance(1, 20)) {  // a large row count with few entries
        int big = static_cast<int>(s.pick({1000, 9999, 32000, 32766}));
        int off = big - in.nrows;
        for (auto& c : in.cols) for (int& i : c) i += off;
        in.nrows = big;
        in.fam += "+many rows";
    }
    if (s.chance(1, 10)) { in.cols.push_back({}); in.costs.push_back(5); gen::compute_exact(in); }  // an empty column
    return in;
}
inline cft::Instance parse(int f, std::string const& path, cft::Solution* init = nullptr) {
    switch (f) {
        case RAIL: return cft::parse_rail_instance(path);
        case SCP: return cft::parse_scp_instance(path);
        case CVRP: {
            auto d = cft::parse_cvrp_instance(path);
            if (init) *init = d.init_sol;
            return d.inst;
        }
        default: return cft::parse_mps_instance(path);
    }
}
// Expected content of the parsed columns (SCP files list rows, so entries come in row order).
inline std::vector<std::vector<int>> expected_cols(int f, Inst const& in) {
    auto c = in.cols;
    if (f == SCP) for (auto& v : c) std::sort(v.begin(), v.end());
    return c;
}
inline std::string same_inst(Inst const& in, std::vector<std::vector<int>> const& cols, cft::Instance const& p) {
    if (static_cast<int>(p.rows.size()) != in.nrows) return pbt::strf("%zu rows read, %d written", p.rows.size(), in.nrows);
    if (p.cols.size() != cols.size() || p.costs.size() != cols.size()) return pbt::strf("%zu columns and %zu costs read, %zu written", p.cols.size(), p.costs.size(), cols.size());
    std::vector<std::vector<int>> rows(static_cast<size_t>(in.nrows));
    for (size_t j = 0; j < cols.size(); ++j) {
        std::vector<int> got;
        for (auto i : p.cols[j]) got.push_back(static_cast<int>(i));
        if (got != cols[j]) return pbt::strf("column %zu read as ", j) + gen::show(got) + ", written " + gen::show(cols[j]);
        if (static_cast<double>(p.costs[j]) != in.costs[j]) return pbt::strf("cost of column %zu read as %.9g, written %.9g", j, static_cast<double>(p.costs[j]), in.costs[j]);
        for (int i : got) rows[static_cast<size_t>(i)].push_back(static_cast<int>(j));
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<int> got(p.rows[i].begin(), p.rows[i].end());
        if (got != rows[i]) return pbt::strf("row %zu lists ", i) + gen::show(got) + " instead of " + gen::show(rows[i]);
    }
    return "";
}
// "" when an instance that came out of a reader is coherent.
inline std::string coherent(cft::Instance const& p) {
    auto const& b = p.cols.begs;
    if (b.empty() || b.front() != 0) return "column starts do not begin at zero";
    for (size_t k = 1; k < b.size(); ++k) if (b[k] < b[k - 1]) return "column starts decrease";
    if (b.back() != p.cols.idxs.size()) return "column starts do not end at the number of entries";
    if (p.costs.size() != b.size() - 1) return pbt::strf("%zu costs for %zu columns", p.costs.size(), b.size() - 1);
    std::vector<std::vector<long long>> rows(p.rows.size());
    for (size_t j = 0; j + 1 < b.size(); ++j)
        for (size_t k = b[j]; k < b[j + 1]; ++k) {
            long long i = static_cast<long long>(p.cols.idxs[k]);
            if (i < 0 || i >= static_cast<long long>(p.rows.size())) return pbt::strf("column %zu holds row %lld of %zu", j, i, p.rows.size());
            rows[static_cast<size_t>(i)].push_back(static_cast<long long>(j));
        }
    for (size_t i = 0; i < rows.size(); ++i) {
        if (rows[i].size() != p.rows[i].size()) return pbt::strf("row %zu lists %zu columns, %zu hold it", i, p.rows[i].size(), rows[i].size());
        for (size_t k = 0; k < rows[i].size(); ++k)
            if (static_cast<long long>(p.rows[i][k]) != rows[i][k]) return pbt::strf("row %zu lists column %lld", i, static_cast<long long>(p.rows[i][k]));
    }
    for (auto c : p.costs) if (!std::isfinite(c)) return "a cost is not finite";
    return "";
}
inline std::string clip(std::string const& s, size_t n = 1500) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
}  // namespace iox
#endif
