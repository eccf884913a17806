// Text views, number conversion, containers, sorting, helpers and random numbers (C26-C30).
#include "pbt.hpp"

#include <cctype>
#include <cmath>
#include <list>
#include <numeric>

#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "utils/Chrono.hpp"
#include "utils/CoverCounters.hpp"
#include "utils/SortedArray.hpp"
#include "utils/Span.hpp"
#include "utils/SparseBinMat.hpp"
#include "utils/StringView.hpp"
#include "utils/parse_utils.hpp"
#include "utils/random.hpp"
#include "utils/sort.hpp"
#include "utils/utility.hpp"
#include "utils/xoshiro_prng.hpp"

static std::string esc(std::string const& s) { return pbt::jesc(s.size() > 400 ? s.substr(0, 400) + "..." : s); }
template <typename V>
static std::string seq(V const& v) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    size_t n = 0;
    for (auto const& e : v) {
        if (n) o << " ";
        if (++n > 120) { o << "..."; break; }
        o << +e;
    }
    o << "]";
    return o.str();
}

// ---- C26: views --------------------------------------------------------------------------------
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

static std::string any_text(pbt::Src& s, int kind) {
    static const std::string blanks = " \t\n\v\f\r";
    std::string              t;
    size_t                   n = s.below(s.pick({3, 8, 8, 20, 200}));
    for (size_t i = 0; i < n; ++i) switch (kind) {
            case 0: t += static_cast<char>("ab "[s.below(3)]); break;
            case 1: t += s.chance(1, 2) ? blanks[s.below(6)] : static_cast<char>('a' + s.below(26)); break;
            case 2: t += static_cast<char>(s.below(256)); break;
            case 3: t += blanks[s.below(6)]; break;
            default: t += s.pick({'0', '1', '9', '-', '.', ' ', 'e', '\xff', '\0', '/'});
        }
    return t;
}
static cft::StringView view(std::string const& t, std::vector<char>& buf, pbt::Src& s) {
    // the text sits between bytes that the view must not look at
    static const char guard[] = {' ', 'x', '\0', '\n'};
    buf.assign(1, guard[s.below(4)]);
    buf.insert(buf.end(), t.begin(), t.end());
    buf.push_back(guard[s.below(4)]);
    return cft::StringView(buf.data() + 1, t.size());
}

PBT_PROP(views) {
    int         kind = static_cast<int>(s.below(5));
    std::string t    = any_text(s, kind);
    std::vector<char> buf;
    cft::StringView   v = view(t, buf, s);
    c.describe(esc(t));
    auto str = [](cft::StringView x) { return std::string(x.begin(), x.end()); };
    auto same = [&](const char* what, cft::StringView got, std::string const& want) {
        if (str(got) != want || got.size() != want.size() || got.empty() != want.empty() || got.to_cpp_string() != want)
            c.fail(std::string(what) + " gives " + esc(str(got)) + " instead of " + esc(want));
        if (!want.empty() && (got.begin() < v.begin() || got.end() > v.end())) c.fail(std::string(what) + " leaves the text");
    };
    same("the view", v, t);
    for (size_t i = 0; i < t.size(); ++i) c.require(v[i] == t[i], "operator[] differs");
    c.require(v.data() == v.begin() && v.end() == v.begin() + t.size(), "data/begin/end differ");
    size_t a = s.below(t.size() + 1), b = s.below(t.size() + 1);
    if (a > b) std::swap(a, b);
    same("remove_prefix", v.remove_prefix(a), t.substr(a));
    same("remove_suffix", v.remove_suffix(a), t.substr(0, a));
    same("get_substr", v.get_substr(a, b), t.substr(a, b - a));
    same("the view after the calls", v, t);
    // search
    char ch  = t.empty() || s.chance(1, 3) ? static_cast<char>(s.below(256)) : t[s.below(t.size())];
    auto is  = [ch](char x) { return x == ch; };
    auto fst = t.find(ch), lst = t.rfind(ch);
    c.check(v.find_first_true(is) == (fst == std::string::npos ? t.size() : fst), "find_first_true gives %zu", v.find_first_true(is));
    c.check(v.find_last_true(is) == (lst == std::string::npos ? t.size() : lst), "find_last_true gives %zu", v.find_last_true(is));
    // trimming and splitting
    size_t l = 0, r = t.size();
    while (l < t.size() && blank(t[l])) ++l;
    while (r > 0 && blank(t[r - 1])) --r;
    same("ltrim", cft::ltrim(v), t.substr(l));
    same("rtrim", cft::rtrim(v), t.substr(0, r));
    same("trim", cft::trim(v), l < r ? t.substr(l, r - l) : "");
    std::vector<std::string> toks;
    for (size_t i = 0; i < t.size();) {
        while (i < t.size() && blank(t[i])) ++i;
        size_t k = i;
        while (k < t.size() && !blank(t[k])) ++k;
        if (k > i) toks.push_back(t.substr(i, k - i));
        i = k;
    }
    auto got = cft::split(v);
    c.check(got.size() == toks.size(), "split gives %zu pieces instead of %zu", got.size(), toks.size());
    for (size_t i = 0; i < toks.size(); ++i) same("split", got[i], toks[i]);
    // comparison (element order of char)
    std::string u = s.chance(1, 4) ? t : any_text(s, kind);
    if (s.chance(1, 3)) { u = t; if (!u.empty() && s.chance(2, 3)) u[s.below(u.size())] = static_cast<char>(s.below(256)); else u += static_cast<char>(s.below(256)); }
    if (s.chance(1, 6)) u = t.substr(0, a);
    std::vector<char> ubuf;
    cft::StringView   w   = view(u, ubuf, s);
    int               ord = std::lexicographical_compare(t.begin(), t.end(), u.begin(), u.end()) ? -1 : std::lexicographical_compare(u.begin(), u.end(), t.begin(), t.end()) ? 1 : 0;
    int               cm  = v.compare(w);
    c.check((cm > 0) - (cm < 0) == ord, "compare gives %d instead of %d", cm, ord);
    c.require((v == w) == (ord == 0) && (v != w) == (ord != 0) && (v < w) == (ord < 0) && (v <= w) == (ord <= 0) && (v > w) == (ord > 0) && (v >= w) == (ord >= 0), "a comparison operator differs from compare");
    // other constructors
    if (str(cft::StringView(t)) != t) c.fail("view of a string differs");
    std::string z = t.substr(0, t.find('\0'));
    if (str(cft::StringView(z.c_str())) != z) c.fail("view of a C string differs");
    c.cls(pbt::strf("text kind %d", kind));
    c.cls(toks.size() > 1 ? "several tokens" : toks.empty() ? "no token" : "one token");
    c.nontrivial(!toks.empty() && t.size() >= 3);
}

// ---- C26: numbers ------------------------------------------------------------------------------
enum NumRes { OK, OUT_OF_RANGE, NO_NUMBER };
struct Exp {
    NumRes      res;
    long double val;  // exact for every integer type
    long double alt;  // another correct rounding for reals
    size_t      len;
};
template <typename T>
static Exp expected_number(const char* p) {
    Exp    e{NO_NUMBER, 0, 0, 0};
    size_t i = 0;
    if (std::is_integral<T>::value) {
        while (blank(p[i])) ++i;
        bool neg = p[i] == '-';
        if (p[i] == '-' || p[i] == '+') ++i;
        size_t            d = i;
        unsigned __int128 v = 0;
        bool              big = false;
        for (; p[i] >= '0' && p[i] <= '9'; ++i) {
            v = v * 10 + static_cast<unsigned>(p[i] - '0');
            if (v >> 64) { big = true; v = static_cast<unsigned __int128>(1) << 64; }
        }
        if (i == d) return e;
        e.len = i;
        __int128 sv = neg ? -static_cast<__int128>(v) : static_cast<__int128>(v);
        if (!std::is_signed<T>::value && !big && neg && v > 0) sv += static_cast<__int128>(1) << 64;  // as strtoull does
        __int128 lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
        e.res = big || sv < lo || sv > hi ? OUT_OF_RANGE : OK;
        e.val = e.alt = static_cast<long double>(sv);
        return e;
    }
    char*       end = nullptr;
    long double v   = strtold(p, &end);
    if (end == p) return e;
    e.len = static_cast<size_t>(end - p);
    e.res = !std::isfinite(v) || v > static_cast<long double>(std::numeric_limits<T>::max()) || v < static_cast<long double>(std::numeric_limits<T>::lowest()) ? OUT_OF_RANGE : OK;
    e.val = static_cast<T>(e.res == OK ? v : 0);
    e.alt = sizeof(T) == 4 ? strtof(p, nullptr) : sizeof(T) == 8 ? strtod(p, nullptr) : v;
    return e;
}
static std::string num_token(pbt::Src& s) {
    auto digits = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) t += static_cast<char>('0' + s.below(10)); return t; };
    switch (s.below(12)) {
        case 0: return digits(1 + s.below(3));
        case 1: {  // around the limits of the integer types
            static const __int128 lims[] = {0, 127, 255, 32767, 65535, 2147483647LL, 4294967295LL, INT64_MAX, UINT64_MAX};
            __int128 v = lims[s.below(9)] + static_cast<int>(s.below(5)) - 2;
            if (s.chance(1, 2)) v = -v;
            bool neg = v < 0;
            if (neg) v = -v;
            std::string t;
            do { t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v);
            return (neg ? "-" : s.chance(1, 5) ? "+" : "") + std::string(s.chance(1, 6) ? "00" : "") + t;
        }
        case 2: return (s.chance(1, 2) ? "-" : "") + digits(s.below(45));
        case 3: return (s.chance(1, 3) ? "-" : "") + digits(s.below(10)) + "." + digits(s.below(12));
        case 4: return digits(1 + s.below(3)) + (s.chance(1, 2) ? "e" : "E") + s.pick({std::string("-"), std::string("+"), std::string("")}) + digits(s.below(5));
        case 5: return s.pick({std::string("inf"), std::string("-inf"), std::string("nan"), std::string("INFINITY"), std::string("NaN"), std::string("infx"), std::string("nan(12)")});
        case 6: return s.pick({std::string("0x1f"), std::string("0x"), std::string("0x1p-3"), std::string("1e"), std::string("1e+"), std::string("."), std::string("-."), std::string("-"), std::string("+"), std::string("--1"), std::string("+-2"), std::string("1-2"), std::string("1,5"), std::string("1.5.2"), std::string("0b1"), std::string("1'000")});
        case 7: return s.pick({std::string("3.4028234e38"), std::string("3.4028235e38"), std::string("3.4028236e38"), std::string("-3.5e38"), std::string("1.7976931348623157e308"), std::string("1.7976931348623159e308"), std::string("1e309"), std::string("-1e4000"), std::string("1e4933"), std::string("1e-46"), std::string("1e-324"), std::string("1e-5000"), std::string("16777217"), std::string("9007199254740993")});
        case 8: return any_text(s, 4);
        case 9: return digits(1 + s.below(4)) + static_cast<char>('a' + s.below(26));
        case 10: return static_cast<char>('a' + s.below(26)) + digits(s.below(3));
        default: return (s.chance(1, 2) ? "-" : "") + digits(1 + s.below(20));
    }
}
template <typename T>
static void number_case(pbt::Src& s, pbt::Ctx& c, const char* name) {
    // a line of tokens, as a reader sees it: the view ends at the end of a token, blanks and the
    // terminator follow it in memory
    static const char* seps[] = {" ", "  ", "\t", " \t", "\n"};
    std::string        line, tail;
    size_t             k = 1 + s.below(4);
    for (size_t i = 0; i < k; ++i) {
        std::string t = num_token(s);
        for (char& ch : t) if (ch == '\0') ch = 'z';
        while (!t.empty() && blank(t.back())) t.pop_back();  // (a view never ends in the middle of blanks)
        if (i) line += seps[s.below(5)];
        line += t;
    }
    if (s.chance(1, 8)) line = " " + line;
    while (!line.empty() && blank(line.back())) line.pop_back();
    if (s.chance(1, 3)) tail = s.pick({std::string(" "), std::string("\r"), std::string("\t ")});
    std::vector<char> buf(line.begin(), line.end());
    buf.insert(buf.end(), tail.begin(), tail.end());
    buf.push_back('\0');
    cft::StringView v(buf.data(), line.size());
    c.describe(std::string(name) + " from " + esc(line));
    size_t off = 0, ok = 0;
    for (int step = 0; step < 8; ++step) {
        const char* p = buf.data() + off;
        Exp         e = off == line.size() ? Exp{NO_NUMBER, 0, 0, 0} : expected_number<T>(p);
        for (int mode = 0; mode < 2; ++mode) {  // parse leaves the view alone, consume moves it
            NumRes got = OK;
            T      val{};
            cft::StringView w = v;
            try { val = mode ? cft::string_to<T>::consume(w) : cft::string_to<T>::parse(w); }
            catch (std::out_of_range&) { got = OUT_OF_RANGE; }
            catch (std::invalid_argument&) { got = NO_NUMBER; }
            static const char* names[] = {"a value", "out of range", "no number"};
            if (got != e.res) c.fail(pbt::strf("%s of %s at %s gives %s instead of %s", mode ? "consume" : "parse", name, esc(std::string(p)).c_str(), names[got], names[e.res]));
            if (got == OK && static_cast<long double>(val) != e.val && static_cast<long double>(val) != e.alt)
                c.fail(pbt::strf("%s of %s at %s gives %.20Lg instead of %.20Lg", mode ? "consume" : "parse", name, esc(std::string(p)).c_str(), static_cast<long double>(val), e.val));
            size_t want = off + (mode && got == OK ? e.len : 0);
            if (w.begin() != buf.data() + want || w.end() != buf.data() + line.size())
                c.fail(pbt::strf("%s at %s leaves a view from %ld to %ld instead of %zu to %zu", mode ? "consume" : "parse", esc(std::string(p)).c_str(), static_cast<long>(w.begin() - buf.data()), static_cast<long>(w.end() - buf.data()), want, line.size()));
            if (mode) v = w;
        }
        c.cls(e.res == OK ? "value" : e.res == OUT_OF_RANGE ? "out of range" : "no number");
        if (e.res != OK) break;
        ++ok;
        off += e.len;
    }
    c.cls(std::string("type ") + name);
    c.nontrivial(ok > 0 || !line.empty());
}
PBT_PROP(numbers) {
    switch (s.below(11)) {
        case 0: return number_case<int8_t>(s, c, "int8");
        case 1: return number_case<int16_t>(s, c, "int16");
        case 2: return number_case<int32_t>(s, c, "int32");
        case 3: return number_case<int64_t>(s, c, "int64");
        case 4: return number_case<uint8_t>(s, c, "uint8");
        case 5: return number_case<uint16_t>(s, c, "uint16");
        case 6: return number_case<uint32_t>(s, c, "uint32");
        case 7: return number_case<uint64_t>(s, c, "uint64");
        case 8: return number_case<float>(s, c, "float");
        case 9: return number_case<double>(s, c, "double");
        default: return number_case<long double>(s, c, "long double");
    }
}

// ---- C27 ---------------------------------------------------------------------------------------
template <typename T>
static std::vector<T> distinct_set(pbt::Src& s, size_t n, size_t maxlen) {
    std::vector<T> v;
    std::vector<char> in(n, 0);
    for (size_t k = n ? s.below(std::min(maxlen, n) + 1) : 0; k > 0; --k) {
        size_t i = s.below(n);
        if (!in[i]) { in[i] = 1; v.push_back(static_cast<T>(i)); }
    }
    return v;
}
PBT_PROP(counters) {
    size_t                n = s.below(s.pick({1, 4, 12, 60, 120})) + s.below(2);
    cft::CoverCounters    cc(n);
    std::vector<uint32_t> m(n, 0);
    std::vector<std::pair<std::vector<int16_t>, size_t>> covered;  // sets and how many times they were covered
    std::string           log = pbt::strf("CoverCounters(%zu)", n);
    size_t                steps = 1 + s.below(30), effects = 0;
    for (size_t k = 0; k < steps; ++k) {
        auto op = s.below(12);
        if (op == 0) {
            if (s.chance(1, 2)) n = s.below(60);
            cc.reset(n);
            m.assign(n, 0);
            covered.clear();
            log += pbt::strf("; reset(%zu)", n);
        } else if (op < 6 || covered.empty()) {
            auto v = distinct_set<int16_t>(s, n, 1 + s.below(20));
            size_t reps = 1;
            if (s.chance(1, 10)) reps = static_cast<size_t>(s.pick({2, 3, 127, 128, 254, 255, 256, 257, 300}));
            if (s.chance(1, 60) && v.size() < 6) reps = static_cast<size_t>(s.pick({32767, 32768, 65535, 65536, 65537}));
            log += "; cover" + seq(v) + (reps > 1 ? pbt::strf(" %zu times", reps) : "");
            c.describe(log);
            size_t fresh = 0;
            for (size_t q = 0; q < reps; ++q) {
                fresh = 0;
                for (auto i : v) fresh += m[static_cast<size_t>(i)]++ == 0;
                size_t got;
                switch (q ? 3 : s.below(4)) {
                    case 0: got = cc.cover(cft::make_span(v.data(), v.size())); break;
                    case 1: got = cc.cover(std::list<size_t>(v.begin(), v.end())); break;
                    case 2: got = cc.cover(std::vector<uint64_t>(v.begin(), v.end())); break;
                    default: got = cc.cover(v);
                }
                c.check(got == fresh, "cover returns %zu instead of %zu", got, fresh);
            }
            if (reps > 255 && !v.empty()) c.cls("covered more than 255 times");
            covered.push_back({v, reps});
            effects += fresh > 0 && fresh < v.size();
        } else if (op < 9) {
            size_t w    = s.below(covered.size());
            auto   v    = covered[w].first;
            size_t reps = s.chance(1, 4) ? s.below(covered[w].second) + 1 : s.chance(1, 2) ? covered[w].second : 1;
            covered[w].second -= reps;
            if (covered[w].second == 0) covered.erase(covered.begin() + static_cast<long>(w));
            log += "; uncover" + seq(v) + (reps > 1 ? pbt::strf(" %zu times", reps) : "");
            c.describe(log);
            size_t gone = 0;
            for (size_t q = 0; q < reps; ++q) {
                gone = 0;
                for (auto i : v) gone += --m[static_cast<size_t>(i)] == 0;
                size_t got = !q && s.chance(1, 2) ? cc.uncover(v) : cc.uncover(cft::make_span(v.data(), v.data() + v.size()));
                c.check(got == gone, "uncover returns %zu instead of %zu", got, gone);
            }
            effects += gone > 0 && gone < v.size();
        } else {
            auto v = s.chance(1, 2) ? distinct_set<int16_t>(s, n, 1 + s.below(8)) : covered[s.below(covered.size())].first;
            for (size_t i = 0; i < v.size() && s.chance(1, 2);) v.pop_back();
            log += "; redundant?" + seq(v);
            bool rc = true, ru = true;
            for (auto i : v) { rc = rc && m[static_cast<size_t>(i)] > 0; ru = ru && m[static_cast<size_t>(i)] > 1; }
            c.describe(log);
            c.require(cc.is_redundant_cover(v) == rc, "is_redundant_cover differs");
            c.require(cc.is_redundant_uncover(v) == ru, "is_redundant_uncover differs");
            effects += rc != ru;
        }
        c.check(cc.size() == n, "size %zu instead of %zu", cc.size(), n);
        for (size_t i = 0; i < n; ++i) c.check(cc[i] == m[i], "counter %zu is %u instead of %u", i, static_cast<unsigned>(cc[i]), m[i]);
    }
    c.describe(log);
    c.nontrivial(effects > 0);
}

struct Item { int key; int id; };
struct ItemKey { int operator()(Item const& i) const { return i.key; } };
struct ScaledKey {
    double f;
    double operator()(Item const& i) const { return f * i.key; }
};
template <size_t N, typename A>
static void sorted_case(pbt::Src& s, pbt::Ctx& c, A arr, double sign) {
    std::vector<Item> m;  // model: kept items, ascending key
    std::string       log = pbt::strf("capacity %zu, key sign %g", N, sign);
    int               id = 0;
    size_t            steps = 1 + s.below(40), dropped = 0;
    int               span = static_cast<int>(s.pick({2, 5, 20, 1000}));
    for (size_t k = 0; k < steps; ++k) {
        if (s.chance(1, 25)) {
            arr.clear();
            m.clear();
            log += "; clear";
        } else {
            Item it{static_cast<int>(s.below(static_cast<uint64_t>(span))) - span / 2, id++};
            bool room = m.size() < N;
            log += pbt::strf("; %d", it.key);
            c.describe(log);
            double kk = sign * it.key;
            bool   want = room || kk < sign * m.back().key;
            bool   tie  = !room && kk == sign * m.back().key;
            bool   got  = true;
            if (room && s.chance(1, 4)) { Item mv = it; arr.insert(std::move(mv)); }
            else if (s.chance(1, 2)) got = arr.try_insert(it);
            else { Item const ci = it; got = arr.try_insert(ci); }
            if (!tie) c.check(got == want, "try_insert of key %d returns %d", it.key, got);
            if (!want) ++dropped;
            if (got) {
                if (!room) { ++dropped; m.pop_back(); }
                size_t p = m.size();
                while (p > 0 && sign * m[p - 1].key > kk) --p;
                m.insert(m.begin() + static_cast<long>(p), it);
            }
        }
        c.check(arr.size() == m.size(), "%zu elements instead of %zu", arr.size(), m.size());
        std::set<int> ids, mids;
        for (size_t i = 0; i < m.size(); ++i) {
            c.check(arr[i].key == m[i].key, "element %zu has key %d instead of %d", i, arr[i].key, m[i].key);
            c.require((arr.begin() + i)->id == arr[i].id, "iteration differs from indexing");
            ids.insert(arr[i].id);
        }
        c.require(arr.end() == arr.begin() + m.size(), "end does not match size");
        c.require(ids.size() == m.size(), "an element is stored twice");
        if (!m.empty()) c.require(arr.back().key == m.back().key && arr.key(arr.back()) == sign * m.back().key, "back differs");
    }
    c.describe(log);
    c.nontrivial(dropped > 0);
}
PBT_PROP(sorted_array) {
    switch (s.below(6)) {
        case 0: return sorted_case<1>(s, c, cft::SortedArray<Item, 1, ItemKey>(), 1);
        case 1: return sorted_case<2>(s, c, cft::SortedArray<Item, 2, ItemKey>(ItemKey{}), 1);
        case 2: return sorted_case<5>(s, c, cft::SortedArray<Item, 5, ItemKey>(), 1);
        case 3: return sorted_case<5>(s, c, cft::make_custom_key_sorted_array<Item, 5>(ScaledKey{-1.0}), -1);
        case 4: return sorted_case<17>(s, c, cft::make_custom_key_sorted_array<Item, 17>([](Item const& i) { return -static_cast<int64_t>(i.key); }), -1);
        default: return sorted_case<3>(s, c, cft::make_custom_key_sorted_array<Item, 3>(ScaledKey{2.0}), 2);
    }
}

template <typename T>
static void matrix_case(pbt::Src& s, pbt::Ctx& c, size_t maxidx) {
    cft::SparseBinMat<T>        mat;
    std::vector<std::vector<T>> m;
    std::string                 log;
    size_t                      steps = 1 + s.below(25), nonempty = 0;
    for (size_t k = 0; k < steps; ++k) {
        auto           op = s.below(14);
        std::vector<T> v;
        for (size_t n = s.below(s.pick({1, 4, 30})); n > 0; --n) v.push_back(static_cast<T>(s.below(maxidx)));
        if (op == 0) {
            mat.clear();
            m.clear();
            log += "; clear";
        } else if (op == 1) {
            mat.push_back({static_cast<T>(1), static_cast<T>(0), static_cast<T>(2)});
            m.push_back({static_cast<T>(1), static_cast<T>(0), static_cast<T>(2)});
            log += "; push {1,0,2}";
        } else if (op == 2 && !m.empty()) {  // write through a view
            size_t j = s.below(m.size());
            if (!m[j].empty()) {
                size_t i = s.below(m[j].size());
                T      x = static_cast<T>(s.below(maxidx));
                mat[j][i] = x;
                m[j][i]   = x;
                log += pbt::strf("; [%zu][%zu] = %ld", j, i, static_cast<long>(x));
            }
        } else if (op == 3 && !m.empty()) {  // a column of another matrix
            cft::SparseBinMat<T> const other = mat;
            size_t j = s.below(m.size());
            mat.push_back(other[j]);
            m.push_back(m[j]);
            log += pbt::strf("; push column %zu of a copy", j);
        } else if (op == 4) {
            std::list<T> l(v.begin(), v.end());
            mat.push_back(l);
            m.push_back(v);
            log += "; push list " + seq(v);
        } else {
            mat.push_back(v);
            m.push_back(v);
            log += "; push " + seq(v);
        }
        c.describe(log);
        cft::SparseBinMat<T> const& cm = mat;
        c.check(mat.size() == m.size() && mat.empty() == m.empty(), "size %zu instead of %zu", mat.size(), m.size());
        nonempty = 0;
        for (size_t j = 0; j < m.size(); ++j) {
            auto a = mat[j];
            auto b = cm[j];
            c.check(a.size() == m[j].size() && b.size() == m[j].size() && a.empty() == m[j].empty(), "column %zu has %zu entries instead of %zu", j, a.size(), m[j].size());
            c.require(std::equal(m[j].begin(), m[j].end(), a.begin()) && std::equal(m[j].begin(), m[j].end(), b.begin()), "a column changed");
            c.require(a.end() - a.begin() == static_cast<long>(m[j].size()), "begin/end differ from size");
            if (!m[j].empty()) { c.require(a.back() == m[j].back() && b[0] == m[j][0], "back/first differ"); ++nonempty; }
        }
    }
    c.nontrivial(nonempty >= 2);
}
PBT_PROP(matrix) {
    switch (s.below(4)) {
        case 0: return matrix_case<int16_t>(s, c, 30000);
        case 1: return matrix_case<uint8_t>(s, c, 255);
        case 2: return matrix_case<int64_t>(s, c, 1ull << 40);
        default: return matrix_case<int32_t>(s, c, 1000000);
    }
}

PBT_PROP(rows) {  // rows derived from columns; copying columns between instances; clearing
    cft::Instance inst, other;
    std::string   log;
    size_t        nz = 0;
    for (size_t round = 0, rounds = 1 + s.below(3); round < rounds; ++round) {  // the same objects are filled again
        size_t nr = s.below(s.pick({3, 10, 200})), nc = s.below(s.pick({3, 20, 100}));
        if (s.chance(1, 3) || round == 0) cft::clear_inst(inst);
        else { inst.cols.clear(); inst.costs.clear(); }
        std::vector<std::vector<cft::ridx_t>> cols(nc);
        std::vector<std::vector<cft::cidx_t>> rows(nr);
        for (size_t j = 0; j < nc; ++j) {
            cols[j] = distinct_set<cft::ridx_t>(s, nr, 1 + s.below(12));
            inst.cols.push_back(cols[j]);
            inst.costs.push_back(static_cast<cft::real_t>(j) + 0.25f);
            for (auto i : cols[j]) rows[static_cast<size_t>(i)].push_back(static_cast<cft::cidx_t>(j));
            nz += cols[j].size();
        }
        log += pbt::strf("; fill %zu columns, %zu rows", nc, nr);
        c.describe(log);
        cft::fill_rows_from_cols(inst.cols, static_cast<cft::ridx_t>(nr), inst.rows);
        c.check(inst.rows.size() == nr, "%zu rows instead of %zu", inst.rows.size(), nr);
        for (size_t i = 0; i < nr; ++i) if (inst.rows[i] != rows[i]) c.fail(pbt::strf("row %zu lists ", i) + seq(inst.rows[i]) + " instead of " + seq(rows[i]));
        size_t before = other.cols.size();
        if (s.chance(1, 4)) { cft::clear_inst(other); before = 0; c.require(other.cols.empty() && other.rows.empty() && other.costs.empty() && other.cols.size() == 0, "clearing leaves something"); }
        std::vector<size_t> taken;
        for (size_t j = 0; j < nc; ++j) if (s.chance(1, 2)) { taken.push_back(j); cft::push_back_col_from(inst, static_cast<cft::cidx_t>(j), other); }
        c.require(other.cols.size() == before + taken.size() && other.costs.size() == other.cols.size(), "copied columns are missing");
        for (size_t k = 0; k < taken.size(); ++k) {
            auto col = other.cols[before + k];
            c.require(std::vector<cft::ridx_t>(col.begin(), col.end()) == cols[taken[k]] && other.costs[before + k] == inst.costs[taken[k]], "a copied column differs");
        }
    }
    c.nontrivial(nz >= 3);
}

// ---- C28 ---------------------------------------------------------------------------------------
template <typename T>
static T some_value(pbt::Src& s, int mode) {
    switch (mode) {
        case 0: return static_cast<T>(s.below(3));
        case 1: return static_cast<T>(static_cast<int64_t>(s.below(200)) - 100);
        case 2: return static_cast<T>(s.below(127));
        case 3: return s.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
        default: return static_cast<T>(static_cast<double>(s.below(1u << 16)) / (std::is_floating_point<T>::value ? 64 : 1024));
    }
}
template <typename T>
static std::vector<T> some_seq(pbt::Src& s, size_t maxn) {
    size_t         n    = s.below(maxn);
    int            mode = static_cast<int>(s.below(5)), pat = static_cast<int>(s.below(6));
    std::vector<T> v(n);
    for (auto& x : v) x = some_value<T>(s, mode);
    if (pat == 1) std::sort(v.begin(), v.end());
    if (pat == 2) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    if (pat == 3 && n > 2) { std::sort(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + static_cast<long>(n / 2), v.end()); }
    if (pat == 4) { std::sort(v.begin(), v.end()); if (n) std::swap(v[s.below(n)], v[s.below(n)]); }
    return v;
}
template <typename T, typename K>
static void order_case(pbt::Src& s, pbt::Ctx& c, K key) {
    auto v = some_seq<T>(s, s.pick({4, 20, 20, 300}));
    c.describe(seq(v));
    auto sorted = v;
    cft::sort(sorted, key);
    c.require(sorted.size() == v.size(), "sort changes the length");
    auto canon = [](std::vector<T> x) { std::sort(x.begin(), x.end()); return x; };
    auto base  = canon(v);
    if (canon(sorted) != base) c.fail("sort loses elements: " + seq(sorted));
    for (size_t i = 1; i < sorted.size(); ++i) if (key(sorted[i]) < key(sorted[i - 1])) c.fail("not sorted: " + seq(sorted));
    if (!v.empty()) {
        auto   nth = v;
        size_t n   = s.below(v.size());
        cft::nth_element(nth, n, key);
        if (canon(nth) != base) c.fail("nth_element loses elements: " + seq(nth));
        if (key(nth[n]) < key(sorted[n]) || key(sorted[n]) < key(nth[n])) c.fail(pbt::strf("element %zu after nth_element is wrong: ", n) + seq(nth));
        for (size_t i = 0; i < n; ++i) if (key(nth[n]) < key(nth[i])) c.fail(pbt::strf("larger key before position %zu: ", n) + seq(nth));
        for (size_t i = n; i < nth.size(); ++i) if (key(nth[i]) < key(nth[n])) c.fail(pbt::strf("smaller key after position %zu: ", n) + seq(nth));
        auto m = cft::range_min(v, key);
        if (key(m) < key(sorted[0]) || key(sorted[0]) < key(m)) c.fail("range_min is not the minimum");
        if (std::find(v.begin(), v.end(), m) == v.end()) c.fail("range_min is not an element");
        auto sp = cft::make_span(v.data(), v.size());
        auto m2 = cft::range_min(sp, key);
        c.require(!(key(m2) < key(m)) && !(key(m) < key(m2)), "range_min of a view differs");
        // a view can be sorted in place, leaving its surroundings alone
        if (v.size() >= 3) {
            auto part = v;
            auto mid  = cft::make_span(part.data() + 1, part.size() - 2);
            cft::sort(mid, key);
            c.require(part.front() == v.front() && part.back() == v.back(), "sorting a view changes its surroundings");
            for (size_t i = 2; i + 1 < part.size(); ++i) c.require(!(key(part[i]) < key(part[i - 1])), "a view is not sorted");
        }
    }
    // the last element alone may also be asked for
    c.nontrivial(v.size() >= 3);
}
struct Third { template <typename T> T operator()(T const& t) const { return static_cast<T>(t / 3); } };  // many ties
PBT_PROP(ordering) {
    switch (s.below(9)) {
        case 0: return order_case<int>(s, c, cft::IdentityFtor{});
        case 1: return order_case<float>(s, c, cft::IdentityFtor{});
        case 2: return order_case<double>(s, c, cft::IdentityFtor{});
        case 3: return order_case<int16_t>(s, c, Third{});
        case 4: return order_case<uint8_t>(s, c, cft::IdentityFtor{});
        case 5: return order_case<int64_t>(s, c, Third{});
        case 6: { double sign = s.chance(1, 2) ? 1 : -1; return order_case<int>(s, c, [sign](int x) { return sign * x; }); }
        case 7: return order_case<int>(s, c, [](int x) { return x % 5; });
        default: return order_case<float>(s, c, [](float x) { return -x; });
    }
}

template <typename T>
static void helper_case(pbt::Src& s, pbt::Ctx& c) {
    auto v    = some_seq<T>(s, 30);
    int  mode = static_cast<int>(s.below(3));
    T    p    = some_value<T>(s, mode);
    c.describe(pbt::strf("pivot %.9Lg in ", static_cast<long double>(p)) + seq(v));
    auto less = [p](T x) { return x < p; };
    c.require(cft::any(v, less) == std::any_of(v.begin(), v.end(), less), "any differs");
    c.require(cft::all(v, less) == std::all_of(v.begin(), v.end(), less), "all differs");
    // remove_if keeps the others in order
    auto w = v, want = v;
    want.erase(std::remove_if(want.begin(), want.end(), less), want.end());
    size_t calls = 0;
    cft::remove_if(w, [&](T x) { ++calls; return x < p; });
    if (w != want) c.fail("remove_if gives " + seq(w) + " instead of " + seq(want));
    c.check(cft::size(v) == v.size(), "size gives %zu", cft::size(v));
    int arr[7];
    c.require(cft::size(arr) == 7, "size of an array differs");
    // min, max, clamp, abs
    T a = some_value<T>(s, mode), b = some_value<T>(s, mode), d = some_value<T>(s, mode), e = some_value<T>(s, mode);
    c.describe(pbt::strf("values %.9Lg %.9Lg %.9Lg %.9Lg, pivot %.9Lg in ", static_cast<long double>(a), static_cast<long double>(b), static_cast<long double>(d), static_cast<long double>(e), static_cast<long double>(p)) + seq(v));
    c.require(cft::min(a, b) == std::min(a, b) && cft::max(a, b) == std::max(a, b), "min/max of two differs");
    c.require(cft::min(a, b, d) == std::min({a, b, d}) && cft::max(a, b, d) == std::max({a, b, d}), "min/max of three differs");
    c.require(cft::min(a, b, d, e) == std::min({a, b, d, e}) && cft::max(a, b, d, e) == std::max({a, b, d, e}), "min/max of four differs");
    T lo = std::min(b, d), hi = std::max(b, d);
    c.require(cft::clamp(a, lo, hi) == std::min(std::max(a, lo), hi), "clamp differs");
    if (std::is_signed<T>::value && a != std::numeric_limits<T>::lowest()) {
        T r = cft::abs(a);
        c.require(r >= T{} && (r == a || r == static_cast<T>(-a)), "abs differs");
    }
    c.nontrivial(v.size() >= 2 && want.size() < v.size() && !want.empty());
}
template <typename R, typename T>
static void cast_case(pbt::Src& s, pbt::Ctx& c, const char* name) {
    T v = some_value<T>(s, static_cast<int>(s.below(5)));
    if (std::is_integral<T>::value && std::is_integral<R>::value && sizeof(R) < sizeof(T) && s.chance(1, 4)) v = static_cast<T>(static_cast<T>(std::numeric_limits<R>::max()) + static_cast<T>(s.below(3)) - T(1));
    c.describe(pbt::strf("%s of %.20Lg", name, static_cast<long double>(v)));
    bool fits;
    if (std::is_floating_point<T>::value) fits = static_cast<long double>(v) >= static_cast<long double>(std::numeric_limits<R>::lowest()) && static_cast<long double>(v) <= static_cast<long double>(std::numeric_limits<R>::max());
    else if (std::is_floating_point<R>::value) fits = std::fabs(static_cast<long double>(v)) <= std::ldexp(1.0L, std::numeric_limits<R>::digits);
    else fits = static_cast<__int128>(v) >= static_cast<__int128>(std::numeric_limits<R>::lowest()) && static_cast<__int128>(v) <= static_cast<__int128>(std::numeric_limits<R>::max());
    bool threw = false;
    R    r{};
#ifdef NDEBUG
    if (!fits) throw pbt::Discard{};
    r = cft::checked_cast<R>(v);
#else
    try { r = cft::checked_cast<R>(v); } catch (std::runtime_error&) { threw = true; }
    if (fits) c.require(!threw, "a fitting value is refused");
    else if (!std::is_floating_point<R>::value) c.require(threw, "a value out of range passes the check");
#endif
    if (fits && !threw) c.require(r == static_cast<R>(v), "the converted value differs");
    c.cls(fits ? "fits" : "does not fit");
    c.nontrivial();
}
// Arguments of several types: the result has the first one's type (all values fit it) and is the extreme.
template <typename A, typename B, typename C, typename D>
static void mixed_case(pbt::Src& s, pbt::Ctx& c, const char* name) {
    auto fits = [](long double v) { return v >= static_cast<long double>(std::numeric_limits<A>::lowest()) && v <= static_cast<long double>(std::numeric_limits<A>::max()) &&
                                           static_cast<long double>(static_cast<A>(v)) == v; };
    int  mode = static_cast<int>(s.below(5));
    A    a = some_value<A>(s, mode);
    B    b = some_value<B>(s, mode);
    C    x = some_value<C>(s, mode);
    D    d = some_value<D>(s, mode);
    if (!fits(static_cast<long double>(b))) b = static_cast<B>(s.below(100));
    if (!fits(static_cast<long double>(x))) x = static_cast<C>(s.below(100));
    if (!fits(static_cast<long double>(d))) d = static_cast<D>(s.below(100));
    A b1 = static_cast<A>(b), x1 = static_cast<A>(x), d1 = static_cast<A>(d);
    c.describe(pbt::strf("%s: %.20Lg %.20Lg %.20Lg %.20Lg", name, static_cast<long double>(a), static_cast<long double>(b), static_cast<long double>(x), static_cast<long double>(d)));
    static_assert(std::is_same<decltype(cft::max(a, b)), A>::value && std::is_same<decltype(cft::min(a, b, x, d)), A>::value, "first type");
    c.require(cft::max(a, b) == std::max(a, b1) && cft::min(a, b) == std::min(a, b1), "min/max of two types differs");
    c.require(cft::max(a, b, x) == std::max({a, b1, x1}) && cft::min(a, b, x) == std::min({a, b1, x1}), "min/max of three types differs");
    c.require(cft::max(a, b, x, d) == std::max({a, b1, x1, d1}) && cft::min(a, b, x, d) == std::min({a, b1, x1, d1}), "min/max of four types differs");
    c.nontrivial();
}
PBT_PROP(helpers) {
    switch (s.below(16)) {
        case 12: return mixed_case<int64_t, int32_t, int64_t, uint32_t>(s, c, "int64 int32 int64 uint32");
        case 13: return mixed_case<double, int32_t, float, double>(s, c, "double int32 float double");
        case 14: return mixed_case<int32_t, int16_t, int32_t, int64_t>(s, c, "int32 int16 int32 int64");
        case 15: return mixed_case<uint64_t, uint32_t, uint64_t, uint16_t>(s, c, "uint64 uint32 uint64 uint16");
        case 0: return helper_case<int>(s, c);
        case 1: return helper_case<float>(s, c);
        case 2: return helper_case<double>(s, c);
        case 3: return helper_case<int64_t>(s, c);
        case 4: return helper_case<uint32_t>(s, c);
        case 5: return cast_case<int16_t, int32_t>(s, c, "int32 to int16");
        case 6: return cast_case<int8_t, int64_t>(s, c, "int64 to int8");
        case 7: return cast_case<uint32_t, int64_t>(s, c, "int64 to uint32");
        case 8: return cast_case<int32_t, uint64_t>(s, c, "uint64 to int32");
        case 9: return cast_case<uint64_t, int32_t>(s, c, "int32 to uint64");
        case 10: return cast_case<float, double>(s, c, "double to float");
        default: return cast_case<double, int32_t>(s, c, "int32 to double");
    }
}
PBT_PROP(durations) {
    double t = s.real(-1e6, 1e9);
    c.describe(pbt::strf("%.17g", t));
    auto near = [&](double got, double want, const char* w) { c.check(std::fabs(got - want) <= 1e-12 * std::fabs(want) + 1e-300, "%s: %.17g instead of %.17g", w, got, want); };
    near(cft::Chrono<cft::usec>::time_cast<cft::sec>(t), t / 1e6, "microseconds to seconds");
    near(cft::Chrono<cft::sec>::time_cast<cft::usec>(t), t * 1e6, "seconds to microseconds");
    near(cft::Chrono<cft::msec>::time_cast<cft::minutes>(t), t / 6e4, "milliseconds to minutes");
    near(cft::Chrono<cft::nsec>::time_cast<cft::msec>(t), t / 1e6, "nanoseconds to milliseconds");
    near(cft::Chrono<cft::hours>::time_cast<cft::sec>(t), t * 3600, "hours to seconds");
    near(cft::Chrono<cft::sec>::time_cast<cft::sec>(t), t, "seconds to seconds");
    c.nontrivial();
}

// ---- C29 ---------------------------------------------------------------------------------------
struct SplitMix {
    uint64_t x;
    uint64_t next() {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
};
// After the public-domain reference programs of Blackman and Vigna.
template <typename U, int Sh, int Rot, int PP>
struct RefXoshiro {
    U s[4];
    explicit RefXoshiro(uint64_t seed) {
        SplitMix m{seed};
        for (auto& x : s) x = static_cast<U>(m.next());
    }
    static U rotl(U x, int k) { return static_cast<U>((x << k) | (x >> (static_cast<int>(sizeof(U)) * 8 - k))); }
    U next() {
        U r = PP ? static_cast<U>(rotl(static_cast<U>(s[0] + s[3]), PP) + s[0]) : static_cast<U>(s[0] + s[3]);
        U t = static_cast<U>(s[1] << Sh);
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], Rot);
        return r;
    }
};
using Ref256P  = RefXoshiro<uint64_t, 17, 45, 0>;
using Ref256PP = RefXoshiro<uint64_t, 17, 45, 23>;
using Ref128P  = RefXoshiro<uint32_t, 9, 11, 0>;
using Ref128PP = RefXoshiro<uint32_t, 9, 11, 7>;

static uint64_t some_seed(pbt::Src& s) {
    switch (s.below(6)) {
        case 0: return s.below(10);
        case 1: return ~s.below(10);
        case 2: return 1ULL << s.below(64);
        case 3: return 0ULL - 0x9e3779b97f4a7c15ULL * (1 + s.below(4));  // a zero word in the seed stream
        default: return s.bits64();
    }
}
template <typename G, typename R>
static void stream_case(pbt::Src& s, pbt::Ctx& c, const char* name) {
    uint64_t seed = some_seed(s);
    G        g(seed);
    R        r(seed);
    size_t   n = s.pick({8, 50, 500, 20000});
    c.describe(pbt::strf("%s, seed %llu, %zu draws", name, static_cast<unsigned long long>(seed), n));
    static_assert(std::is_same<typename G::result_type, decltype(r.next())>::value, "result type");
    c.require(G::min() == 0 && G::max() == std::numeric_limits<typename G::result_type>::max(), "min/max differ");
    size_t fork = s.below(n);
    for (size_t i = 0; i < n; ++i) {
        if (i == fork) {  // copies continue identically, and do not disturb each other
            G g2 = g;
            R r2 = r;
            for (int k = 0; k < 20; ++k) c.require(g2() == r2.next(), "a copy does not continue the stream");
            G g3(some_seed(s));
            g3 = g;
            r2 = r;
            for (int k = 0; k < 5; ++k) c.require(g3() == r2.next(), "an assigned copy does not continue the stream");
        }
        auto a = g();
        auto b = r.next();
        c.check(a == b, "draw %zu is %llu instead of %llu", i, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
    }
    c.cls(name);
    c.nontrivial(n >= 20);
}
PBT_PROP(streams) {
    static_assert(std::is_same<cft::prng_picker<float>::type, cft::Xoshiro128P>::value, "");
    static_assert(std::is_same<cft::prng_picker<double>::type, cft::Xoshiro256P>::value, "");
    static_assert(std::is_same<cft::prng_picker<uint32_t>::type, cft::Xoshiro128PP>::value, "");
    static_assert(std::is_same<cft::prng_picker<uint64_t>::type, cft::Xoshiro256PP>::value, "");
    static_assert(std::is_same<cft::prng_picker<const float&>::type, cft::Xoshiro128P>::value, "");
    static_assert(std::is_same<cft::prng_t, cft::Xoshiro128P>::value, "");
    switch (s.below(5)) {
        case 0: return stream_case<cft::Xoshiro256P, Ref256P>(s, c, "xoshiro256+");
        case 1: return stream_case<cft::Xoshiro256PP, Ref256PP>(s, c, "xoshiro256++");
        case 2: return stream_case<cft::Xoshiro128P, Ref128P>(s, c, "xoshiro128+");
        case 3: return stream_case<cft::Xoshiro128PP, Ref128PP>(s, c, "xoshiro128++");
        default: {  // the environment's own generator, through copies of the environment
            cft::Environment env;
            Ref128P          r(0);
            if (s.chance(2, 3)) { uint64_t seed = some_seed(s); env.rnd = cft::prng_t(seed); r = Ref128P(seed); }
            cft::Environment const& ce = env;
            for (int i = 0; i < 30; ++i) c.require(ce.rnd() == r.next(), "the environment's generator differs");
            cft::Environment e2 = env;
            for (int i = 0; i < 30; ++i) c.require(e2.rnd() == r.next(), "a copied environment does not continue the stream");
            c.cls("environment");
            c.describe("environment generator");
            c.nontrivial();
        }
    }
}

// ---- C30 ---------------------------------------------------------------------------------------
template <typename U>
struct RawGen : cft::limits<U> {  // a generator that returns chosen words
    using result_type = U;
    std::vector<U> words;
    size_t         i = 0;
    U operator()() { return words[i++ % words.size()]; }
};
template <typename U>
static RawGen<U> raw_words(pbt::Src& s) {
    RawGen<U> g;
    for (size_t n = 1 + s.below(20); n > 0; --n) switch (s.below(6)) {
            case 0: g.words.push_back(0); break;
            case 1: g.words.push_back(static_cast<U>(~U(0))); break;
            case 2: g.words.push_back(static_cast<U>(~U(0) - s.below(4096))); break;
            case 3: g.words.push_back(static_cast<U>(U(1) << s.below(sizeof(U) * 8))); break;
            case 4: g.words.push_back(static_cast<U>(~U(0) << s.below(sizeof(U) * 8))); break;
            default: g.words.push_back(static_cast<U>(s.bits64()));
        }
    return g;
}
template <typename F, typename U>
static void extreme_case(pbt::Src& s, pbt::Ctx& c, const char* name) {
    auto g = raw_words<U>(s);
    std::ostringstream o;
    o << name << std::hex;
    for (auto w : g.words) o << " " << +w;
    c.describe(o.str());
    for (size_t i = 0; i < g.words.size(); ++i) {
        F x = cft::canonical_gen<F>(g);
        c.check(x >= F(0) && x < F(1), "%s draws %.25Lg from %llx", name, static_cast<long double>(x), static_cast<unsigned long long>(g.words[i]));
    }
    F lo = static_cast<F>(s.real(-100, 100)), hi = lo + static_cast<F>(s.pick({0.0, 1e-3, 1.0, 50.0, 1e6, 1e38, 3e38}));
    if (s.chance(1, 12)) { lo = std::numeric_limits<F>::lowest() / 2; hi = std::numeric_limits<F>::max() / 2; }
    for (size_t i = 0; i < g.words.size(); ++i) {
        F x = cft::rnd_real(g, lo, hi);
        c.check(x >= lo && x <= hi, "%s draws %.25Lg outside [%.25Lg, %.25Lg]", name, static_cast<long double>(x), static_cast<long double>(lo), static_cast<long double>(hi));
    }
    c.cls(name);
    c.nontrivial();
}
template <typename I, typename G>
static void dice_range(pbt::Src& s, pbt::Ctx& c, G& g, const char* name) {
    // any range of the type that is not wider than the generator's words
    typedef typename std::make_unsigned<I>::type U;
    typedef typename G::result_type              W;
    uint64_t tspan = static_cast<uint64_t>(std::numeric_limits<U>::max());
    uint64_t most  = std::min<uint64_t>(tspan, std::numeric_limits<W>::max());
    uint64_t span  = s.below(s.pick({uint64_t(1), uint64_t(2), uint64_t(7), uint64_t(100), uint64_t(30000)}));
    if (s.chance(1, 3)) span = s.chance(1, 2) ? most : most - s.below(std::min<uint64_t>(most, 70));
    else if (s.chance(1, 3)) span = most >> s.below(sizeof(I) * 8);
    else if (s.chance(1, 4)) span = s.bits64() & most;
    span = std::min(span, most);
    uint64_t off = s.chance(1, 3) ? 0 : s.chance(1, 2) ? tspan - span : tspan - span == ~uint64_t(0) ? s.bits64() : s.below(tspan - span + 1);
    uint64_t tmin = static_cast<uint64_t>(static_cast<int64_t>(std::numeric_limits<I>::lowest()));
    I        a = static_cast<I>(tmin + off), b = static_cast<I>(tmin + off + span);
    if (std::is_signed<I>::value && s.chance(1, 4)) {  // around zero
        a = static_cast<I>(-static_cast<int64_t>(span / 2));
        b = static_cast<I>(static_cast<int64_t>(span - span / 2));
        if (b < a) b = std::numeric_limits<I>::max();
    }
    g.words.push_back(static_cast<W>(s.below(1000)));  // (a draw may skip words)
    std::ostringstream o;
    o << "roll_dice " << name << " [" << +a << ", " << +b << "], words" << std::hex;
    for (auto w : g.words) o << " " << +w;
    c.describe(o.str());
    for (int i = 0; i < 40; ++i) {
        I x = cft::roll_dice(g, a, b);
        if (!(x >= a && x <= b)) { std::ostringstream m; m << name << ": " << +x << " drawn from [" << +a << ", " << +b << "]"; c.fail(m.str()); }
    }
    c.cls(std::string("dice ") + name);
    if (a == std::numeric_limits<I>::lowest() && b == std::numeric_limits<I>::max()) c.cls("whole type");
    c.nontrivial(b > a);
}
// A coin follows its probability word by word: never with zero, always with one, and with one half a
// word and its complement give different sides.
template <typename W>
static void coin_words(pbt::Src& s, pbt::Ctx& c, const char* name) {
    auto g = raw_words<W>(s);
    std::ostringstream o;
    o << "coin " << name << std::hex;
    for (auto w : g.words) o << " " << +w;
    c.describe(o.str());
    auto inv = g;
    for (auto& w : inv.words) w = static_cast<W>(~w);
    for (size_t i = 0; i < g.words.size(); ++i) c.check(!cft::coin_flip(g, 0.0), "%s: a coin of probability zero succeeds with %llx", name, static_cast<unsigned long long>(g.words[i]));
    for (size_t i = 0; i < g.words.size(); ++i) c.check(cft::coin_flip(g, 1.0), "%s: a coin of probability one fails with %llx", name, static_cast<unsigned long long>(g.words[i]));
    for (size_t i = 0; i < g.words.size(); ++i) {
        bool x = cft::coin_flip(g), y = cft::coin_flip(inv);
        c.check(x != y, "%s: a fair coin gives the same side with %llx and its complement", name, static_cast<unsigned long long>(g.words[i]));
    }
    c.cls(std::string("coin ") + name);
    c.nontrivial();
}
PBT_PROP(extremes) {  // any word the generator can return, in particular the extreme ones
    auto g32 = [&] { return raw_words<uint32_t>(s); };
    auto g64 = [&] { return raw_words<uint64_t>(s); };
    switch (s.below(18)) {
        case 0: return extreme_case<float, uint32_t>(s, c, "float from 32 bits");
        case 1: return extreme_case<float, uint64_t>(s, c, "float from 64 bits");
        case 2: return extreme_case<double, uint32_t>(s, c, "double from 32 bits");
        case 3: return extreme_case<double, uint64_t>(s, c, "double from 64 bits");
        case 4: return extreme_case<long double, uint32_t>(s, c, "long double from 32 bits");
        case 5: return extreme_case<long double, uint64_t>(s, c, "long double from 64 bits");
        case 6: { auto g = g32(); return dice_range<int32_t>(s, c, g, "int32 from 32 bits"); }
        case 7: { auto g = g64(); return dice_range<int64_t>(s, c, g, "int64 from 64 bits"); }
        case 8: { auto g = g64(); return dice_range<uint16_t>(s, c, g, "uint16 from 64 bits"); }
        case 9: { auto g = g32(); return dice_range<uint32_t>(s, c, g, "uint32 from 32 bits"); }
        case 10: { auto g = g64(); return dice_range<uint64_t>(s, c, g, "uint64 from 64 bits"); }
        case 11: { auto g = g32(); return dice_range<int8_t>(s, c, g, "int8 from 32 bits"); }
        case 12: { auto g = g32(); return dice_range<int64_t>(s, c, g, "int64 from 32 bits"); }
        case 13: { auto g = g64(); return dice_range<int32_t>(s, c, g, "int32 from 64 bits"); }
        case 14: return coin_words<uint32_t>(s, c, "from 32 bits");
        case 15: return coin_words<uint64_t>(s, c, "from 64 bits");
        default: { auto g = g32(); return dice_range<int16_t>(s, c, g, "int16 from 32 bits"); }
    }
}

// Upper limit of a chi-square statistic with k degrees of freedom, passed by chance less than
// about once in 10^12 (Wilson-Hilferty, 7 standard deviations).
static double chi2_limit(double k) {
    double z = 7.0, a = 2.0 / (9.0 * k);
    double t = 1 - a + z * std::sqrt(a);
    return k * t * t * t;
}
static double chi2(std::vector<double> const& n, double total) {
    double e = total / static_cast<double>(n.size()), x = 0;
    for (double v : n) x += (v - e) * (v - e) / e;
    return x;
}
template <typename F, typename G>
static void uniform_real(pbt::Src& s, pbt::Ctx& c, const char* name) {
    G      g(some_seed(s));
    size_t n = 1u << 16;
    double lo = 0, hi = 1;
    bool   ranged = s.chance(1, 2);
    if (ranged) { lo = s.real(-1000, 1000); hi = lo + s.pick({1.0, 10.0, 1e4}); }
    F fl = static_cast<F>(lo), fh = static_cast<F>(hi);
    c.describe(pbt::strf("%s in [%.9g, %.9g]", name, lo, hi));
    const size_t        B = 64, S = 8;
    std::vector<double> bins(B, 0), serial(S * S, 0), bits(24, 0);
    double              prev = 0, mn = 2, mx = -1;
    for (size_t i = 0; i < n; ++i) {
        F raw = ranged ? cft::rnd_real(g, fl, fh) : cft::canonical_gen<F>(g);
        double u = ranged ? static_cast<double>((static_cast<long double>(raw) - fl) / (static_cast<long double>(fh) - fl)) : static_cast<double>(raw);
        if (ranged ? !(raw >= fl && raw <= fh) : !(raw >= F(0) && raw < F(1))) c.fail(pbt::strf("%.20Lg drawn", static_cast<long double>(raw)));
        double v = std::min(u, 1 - 1e-12);
        mn = std::min(mn, u);
        mx = std::max(mx, u);
        ++bins[static_cast<size_t>(v * B)];
        if (i % 2) ++serial[static_cast<size_t>(prev * S) * S + static_cast<size_t>(v * S)];
        prev = v;
        if (!ranged) for (size_t b = 0; b < 20; ++b) bits[b] += static_cast<int>(std::floor(std::ldexp(u, static_cast<int>(b) + 1))) & 1;
    }
    double x = chi2(bins, static_cast<double>(n));
    c.check(x < chi2_limit(B - 1), "%s: frequencies are not uniform, chi-square %.1f over %d bins", name, x, static_cast<int>(B));
    x = chi2(serial, static_cast<double>(n / 2));
    c.check(x < chi2_limit(S * S - 1), "%s: pairs of draws are not uniform, chi-square %.1f", name, x);
    c.check(mn < 3e-3 && mx > 1 - 3e-3, "%s: the smallest and largest of %zu draws are %.6f and %.6f", name, n, mn, mx);
    if (!ranged) for (size_t b = 0; b < 20; ++b) {
            double z = (bits[b] - static_cast<double>(n) / 2) / std::sqrt(static_cast<double>(n) / 4);
            c.check(std::fabs(z) < 7, "%s: binary digit %zu is one in %.4f of the draws", name, b + 1, bits[b] / static_cast<double>(n));
        }
    c.cls(name);
    c.nontrivial();
}
template <typename G>
static void uniform_dice(pbt::Src& s, pbt::Ctx& c, const char* name) {
    G       g(some_seed(s));
    int64_t w  = 1 + static_cast<int64_t>(s.below(static_cast<uint64_t>(s.pick({2, 10, 100, 1000}))));
    int64_t lo = s.range(-1000, 1000);
    size_t  n  = static_cast<size_t>(std::max<int64_t>(20000, 60 * w));
    c.describe(pbt::strf("%s: dice [%ld, %ld]", name, static_cast<long>(lo), static_cast<long>(lo + w - 1)));
    std::vector<double> bins(static_cast<size_t>(w), 0);
    for (size_t i = 0; i < n; ++i) {
        int64_t v = s.below(1) + cft::roll_dice<int64_t>(g, lo, lo + w - 1);
        c.check(v >= lo && v < lo + w, "%ld drawn from [%ld, %ld]", static_cast<long>(v), static_cast<long>(lo), static_cast<long>(lo + w - 1));
        ++bins[static_cast<size_t>(v - lo)];
    }
    for (size_t k = 0; k < bins.size(); ++k) c.check(bins[k] > 0, "%ld is never drawn from [%ld, %ld]", static_cast<long>(lo) + static_cast<long>(k), static_cast<long>(lo), static_cast<long>(lo + w - 1));
    if (w > 1) {
        double x = chi2(bins, static_cast<double>(n));
        c.check(x < chi2_limit(static_cast<double>(w - 1)), "frequencies of dice are not uniform, chi-square %.1f over %d values", x, static_cast<int>(w));
    }
    c.cls(name);
    c.nontrivial(w > 1);
}
template <typename G>
static void coin(pbt::Src& s, pbt::Ctx& c, const char* name) {
    G      g(some_seed(s));
    double p = s.pick({0.5, 1.0, 0.1, 0.9, 0.01, 0.25, 0.0});
    bool   def = p == 0.5;
    size_t n = 40000, k = 0;
    c.describe(pbt::strf("%s: coin %.2f", name, p));
    for (size_t i = 0; i < n; ++i) k += def ? cft::coin_flip(g) : cft::coin_flip(g, p);
    double z = std::fabs(static_cast<double>(k) - static_cast<double>(n) * p);
    c.check(z <= 7 * std::sqrt(static_cast<double>(n) * p * (1 - p)) + 1e-9, "%s: %zu of %zu coins with probability %.2f", name, k, n, p);
    c.cls(std::string("coin ") + name);
    c.nontrivial(p > 0 && p < 1);
}
PBT_PROP(uniform) {
    switch (s.below(16)) {
        case 0: return uniform_real<float, cft::Xoshiro128P>(s, c, "float, xoshiro128+");
        case 1: return uniform_real<float, cft::Xoshiro256P>(s, c, "float, xoshiro256+");
        case 2: return uniform_real<float, cft::Xoshiro128PP>(s, c, "float, xoshiro128++");
        case 3: return uniform_real<float, cft::Xoshiro256PP>(s, c, "float, xoshiro256++");
        case 4: return uniform_real<double, cft::Xoshiro128P>(s, c, "double, xoshiro128+");
        case 5: return uniform_real<double, cft::Xoshiro256P>(s, c, "double, xoshiro256+");
        case 6: return uniform_real<double, cft::Xoshiro128PP>(s, c, "double, xoshiro128++");
        case 7: return uniform_real<double, cft::Xoshiro256PP>(s, c, "double, xoshiro256++");
        case 8: return uniform_real<long double, cft::Xoshiro256PP>(s, c, "long double, xoshiro256++");
        case 9: return uniform_real<long double, cft::Xoshiro128P>(s, c, "long double, xoshiro128+");
        case 10: return uniform_dice<cft::Xoshiro128PP>(s, c, "dice, xoshiro128++");
        case 11: return uniform_dice<cft::Xoshiro256PP>(s, c, "dice, xoshiro256++");
        case 12: return uniform_dice<cft::Xoshiro256P>(s, c, "dice, xoshiro256+");
        case 13: return coin<cft::Xoshiro256P>(s, c, "xoshiro256+");
        case 14: return coin<cft::Xoshiro128P>(s, c, "xoshiro128+");
        default: return uniform_dice<cft::Xoshiro128P>(s, c, "dice, xoshiro128+");
    }
}
// Ranges of many values: by position within the range and by remainder.
template <typename I, typename G>
static void uniform_wide(pbt::Src& s, pbt::Ctx& c, const char* name) {
    G       g(some_seed(s));
    typedef typename std::make_unsigned<I>::type U;
    const int bits = static_cast<int>(std::min(sizeof(I), sizeof(typename G::result_type)) * 8);
    int       e = static_cast<int>(s.range(8, bits - 1));
    uint64_t  span = (uint64_t(1) << e) - 1 + s.below(uint64_t(1) << e);  // one less than the number of values
    if (s.chance(1, 12)) span = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
    if (s.chance(1, 6)) span = (span >> 2) + (span >> 1);  // three quarters: a plain remainder would be far off
    uint64_t  room = static_cast<uint64_t>(std::numeric_limits<U>::max()) - span, off = s.chance(1, 2) ? room / 2 : s.chance(1, 2) ? 0 : room;
    uint64_t  tmin = static_cast<uint64_t>(static_cast<int64_t>(std::numeric_limits<I>::lowest()));
    I         lo = static_cast<I>(tmin + off), hi = static_cast<I>(tmin + off + span);
    std::ostringstream o;
    o << name << ": dice [" << lo << ", " << hi << "]";
    c.describe(o.str());
    const int64_t       B = 61, M = 16;
    const size_t        n = 1u << 16;
    std::vector<double> pos(static_cast<size_t>(B), 0), rem(static_cast<size_t>(M), 0);
    for (size_t i = 0; i < n; ++i) {
        I x = cft::roll_dice<I>(g, lo, hi);
        if (!(x >= lo && x <= hi)) { std::ostringstream m; m << x << " drawn"; c.fail(m.str()); }
        uint64_t v = static_cast<uint64_t>(x) - static_cast<uint64_t>(lo);
        ++pos[static_cast<size_t>(static_cast<long double>(v) * B / (static_cast<long double>(span) + 1))];
        ++rem[static_cast<size_t>(v % M)];
    }
    double x = 0, y = 0;
    for (int64_t b = 0; b < B; ++b) {
        long double w = static_cast<long double>(span) + 1, from = std::ceil(b * w / B), to = std::ceil((b + 1) * w / B);
        double      e1 = static_cast<double>(n * (to - from) / w), d = pos[static_cast<size_t>(b)] - e1;
        x += d * d / e1;
    }
    for (uint64_t b = 0; b < static_cast<uint64_t>(M); ++b) {
        long double w = static_cast<long double>(span) + 1;
        double      e1 = static_cast<double>(n * static_cast<long double>((span - b) / M + 1) / w), d = rem[static_cast<size_t>(b)] - e1;
        y += d * d / e1;
    }
    c.check(x < chi2_limit(static_cast<double>(B - 1)), "dice over %llu + 1 values are not uniform: chi-square %.1f by position", static_cast<unsigned long long>(span), x);
    c.check(y < chi2_limit(static_cast<double>(M - 1)), "dice over %llu + 1 values are not uniform: chi-square %.1f by remainder", static_cast<unsigned long long>(span), y);
    c.cls(std::string("wide ") + name);
    c.nontrivial();
}
PBT_PROP(uniform_dice_wide) {
    switch (s.below(7)) {
        case 0: return uniform_wide<int64_t, cft::Xoshiro256PP>(s, c, "int64, xoshiro256++");
        case 1: return uniform_wide<int32_t, cft::Xoshiro128PP>(s, c, "int32, xoshiro128++");
        case 2: return uniform_wide<int32_t, cft::Xoshiro256P>(s, c, "int32, xoshiro256+");
        case 3: return uniform_wide<uint32_t, cft::Xoshiro128P>(s, c, "uint32, xoshiro128+");
        case 4: return uniform_wide<uint16_t, cft::Xoshiro128PP>(s, c, "uint16, xoshiro128++");
        case 5: return uniform_wide<int16_t, cft::Xoshiro256PP>(s, c, "int16, xoshiro256++");
        default: return uniform_wide<uint64_t, cft::Xoshiro256P>(s, c, "uint64, xoshiro256+");
    }
}
PBT_MAIN
