#include "ioref.h"

#include <algorithm>
#include <cctype>
#include <cstring>

using std::string;
using std::vector;

static bool space(char c) {
    return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n';
}
static vector<string> lines(string const& t) {
    vector<string> o;
    size_t         b = 0;
    while (b < t.size()) {
        size_t e = t.find('\n', b);
        if (e == string::npos)
            e = t.size();
        o.push_back(t.substr(b, e - b));
        b = e + 1;
    }
    return o;
}
static vector<string> words(string const& l) {
    vector<string> o;
    size_t         b = 0;
    while (b < l.size()) {
        while (b < l.size() && space(l[b]))
            ++b;
        size_t e = b;
        while (e < l.size() && !space(l[e]))
            ++e;
        if (e > b)
            o.push_back(l.substr(b, e - b));
        b = e;
    }
    return o;
}
static bool digits(string const& s, size_t& i) {
    size_t b = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        ++i;
    return i > b;
}
static bool integer(string const& s, long long& v) {
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    if (!digits(s, i) || i != s.size() || s.size() > 18)
        return false;
    v = strtoll(s.c_str(), nullptr, 10);
    return true;
}
static bool real(string const& s, long double& v) {
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    bool   a = digits(s, i);
    if (i < s.size() && s[i] == '.') {
        ++i;
        bool b = digits(s, i);
        a      = a || b;
    }
    if (!a)
        return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            ++i;
        if (!digits(s, i))
            return false;
    }
    if (i != s.size())
        return false;
    v = strtold(s.c_str(), nullptr);
    if (!(std::fabs(v) < 1e30L))
        return false;
    v = sut_real(s.c_str());
    return true;
}
static Ref bad(string const& w) {
    Ref r;
    r.st  = REF_BAD;
    r.why = w;
    return r;
}
static Ref unclear(string const& w) {
    Ref r;
    r.st  = REF_UNCLEAR;
    r.why = w;
    return r;
}
static bool sizes(vector<string> const& ls, long long& n, long long& m, Ref& out) {
    if (ls.empty()) {
        out = bad("empty file");
        return false;
    }
    auto w = words(ls[0]);
    if (w.size() < 2) {
        out = bad("no sizes");
        return false;
    }
    if (w.size() > 2 || !integer(w[0], n) || !integer(w[1], m) || n < 0 || m < 0 || n > sut_max_rows() || m > sut_max_cols()) {
        out = unclear("odd sizes");
        return false;
    }
    return true;
}
static Ref finish(Ref r) {
    for (auto& c : r.x.cols) {
        auto s = c;
        std::sort(s.begin(), s.end());
        if (std::adjacent_find(s.begin(), s.end()) != s.end())
            return unclear("repeated row");
    }
    r.st = REF_OK;
    return r;
}
static Ref rail(string const& t) {
    auto      ls = lines(t);
    long long n = 0, m = 0, v = 0, k = 0;
    Ref       r;
    if (!sizes(ls, n, m, r))
        return r;
    r.x.nrows = static_cast<int>(n);
    if (ls.size() < static_cast<size_t>(m) + 1)
        return bad("columns missing");
    for (long long j = 0; j < m; ++j) {
        auto        w = words(ls[static_cast<size_t>(j) + 1]);
        long double c = 0;
        if (w.size() < 2)
            return bad("column cut short");
        if (!real(w[0], c) || !integer(w[1], k) || k < 0)
            return unclear("odd column");
        if (static_cast<long long>(w.size()) - 2 < k)
            return bad("column cut short");
        if (static_cast<long long>(w.size()) - 2 > k)
            return unclear("column too long");
        r.x.cols.emplace_back();
        r.x.costs.push_back(c);
        for (size_t q = 2; q < w.size(); ++q) {
            if (!integer(w[q], v))
                return unclear("odd row");
            if (v < 1 || v > n)
                return unclear("row out of range");
            r.x.cols.back().push_back(static_cast<int>(v - 1));
        }
    }
    for (size_t q = static_cast<size_t>(m) + 1; q < ls.size(); ++q)
        if (!words(ls[q]).empty())
            return unclear("trailing data");
    return finish(r);
}
static Ref scp(string const& t) {
    auto      ls = lines(t);
    long long n = 0, m = 0, v = 0, k = 0;
    Ref       r;
    if (!sizes(ls, n, m, r))
        return r;
    vector<string> w;
    for (size_t q = 1; q < ls.size(); ++q)
        for (auto& s : words(ls[q]))
            w.push_back(s);
    r.x.nrows = static_cast<int>(n);
    size_t p  = 0;
    if (w.size() < static_cast<size_t>(m))
        return bad("costs missing");
    for (long long j = 0; j < m; ++j) {
        long double c = 0;
        if (!real(w[p++], c))
            return unclear("odd cost");
        r.x.costs.push_back(c);
        r.x.cols.emplace_back();
    }
    for (long long i = 0; i < n; ++i) {
        if (p >= w.size())
            return bad("rows missing");
        if (!integer(w[p++], k) || k < 0)
            return unclear("odd row size");
        if (w.size() - p < static_cast<size_t>(k))
            return bad("row cut short");
        for (long long q = 0; q < k; ++q) {
            if (!integer(w[p++], v) || v < 1 || v > m)
                return unclear("odd column");
            r.x.cols[static_cast<size_t>(v - 1)].push_back(static_cast<int>(i));
        }
    }
    if (p < w.size())
        return unclear("trailing data");
    return finish(r);
}
static Ref cvrp(string const& t) {
    auto      ls = lines(t);
    long long n = 0, m = 0, v = 0;
    Ref       r;
    if (!sizes(ls, n, m, r))
        return r;
    r.x.nrows = static_cast<int>(n);
    if (ls.size() < static_cast<size_t>(m) + 1)
        return bad("columns missing");
    for (long long j = 0; j < m; ++j) {
        auto        w = words(ls[static_cast<size_t>(j) + 1]);
        long double c = 0, s = 0;
        if (w.size() < 2)
            return bad("column cut short");
        if (!real(w[0], c) || !real(w[1], s) || s < c)
            return unclear("odd column");
        r.x.cols.emplace_back();
        r.x.costs.push_back(c);
        for (size_t q = 2; q < w.size(); ++q) {
            if (!integer(w[q], v) || v < 0 || v >= n)
                return unclear("odd row");
            r.x.cols.back().push_back(static_cast<int>(v));
        }
    }
    size_t q = static_cast<size_t>(m) + 1;
    if (q < ls.size()) {
        for (auto& s : words(ls[q])) {
            if (!integer(s, v) || v < 0 || v >= m)
                return unclear("odd initial solution");
            r.init.idxs.push_back(v);
            r.has_init = true;
        }
        for (size_t z = q + 1; z < ls.size(); ++z)
            if (!words(ls[z]).empty())
                return unclear("trailing data");
    }
    r.init.cost = exact_cost(r.x, r.init.idxs);
    return finish(r);
}
static Ref mps(string const& t) {
    auto                  ls = lines(t);
    Ref                   r;
    size_t                p = 0;
    std::map<string, int> rows;
    string                obj, prev;
    auto                  is = [&](size_t i, char const* s) {
        auto w = words(ls[i]);
        return w.size() == 1 && w[0] == s;
    };
    char const* sect[] = {"ROWS", "COLUMNS", "RHS"};
    size_t      sn     = 0;
    for (size_t i = 0; i < ls.size() && sn < 3; ++i)
        sn += is(i, sect[sn]);
    if (sn < 3)
        return bad("section missing");
    while (p < ls.size() && !is(p, "ROWS"))
        ++p;
    if (p > 9)
        return unclear("long header");
    ++p;
    for (; p < ls.size() && !is(p, "COLUMNS"); ++p) {
        auto w = words(ls[p]);
        if (w.size() != 2)
            return unclear("odd row line");
        if (w[0] == "N" && obj.empty())
            obj = w[1];
        else if (w[0] == "G" || w[0] == "E" || w[0] == "L") {
            if (!rows.emplace(w[1], static_cast<int>(rows.size())).second || w[1] == obj)
                return unclear("repeated row");
        } else
            return unclear("odd row line");
    }
    if (p >= ls.size())
        return bad("no columns");
    ++p;
    for (; p < ls.size() && !is(p, "RHS"); ++p) {
        auto w = words(ls[p]);
        if (w.size() >= 3 && w[1] == "'MARKER'")
            continue;
        if (w.size() < 3 || w.size() % 2 == 0 || !(isdigit(static_cast<unsigned char>(w[2][0])) || w[2][0] == '-'))
            return unclear("odd column line");
        if (w[0] != prev || r.x.cols.empty()) {
            prev = w[0];
            r.x.cols.emplace_back();
            r.x.costs.push_back(0);
        }
        for (size_t q = 1; q < w.size(); q += 2) {
            long double v = 0;
            if (!real(w[q + 1], v))
                return unclear("odd value");
            if (w[q] == obj)
                r.x.costs.back() = v;
            else if (rows.count(w[q])) {
                if (v != 1)
                    return unclear("odd coefficient");
                r.x.cols.back().push_back(rows[w[q]]);
            } else
                return unclear("unknown row");
        }
    }
    if (p >= ls.size())
        return bad("no right-hand side");
    r.x.nrows = static_cast<int>(rows.size());
    return finish(r);
}
Ref ref_instance(string const& fmt, string const& t) {
    for (char c : t)
        if (c == 0 || static_cast<unsigned char>(c) > 126)
            return unclear("binary data");
    return fmt == "RAIL" ? rail(t) : fmt == "SCP" ? scp(t) : fmt == "CVRP" ? cvrp(t) : mps(t);
}
RefSt ref_solution(string const& t, XSol& s) {
    s = XSol();
    for (char c : t)
        if (c == 0 || static_cast<unsigned char>(c) > 126)
            return REF_UNCLEAR;
    auto ls = lines(t);
    if (ls.empty())
        return REF_BAD;
    auto w = words(ls[0]);
    if (w.empty())
        return REF_BAD;
    if (!real(w[0], s.cost)) {
        // finite values of any magnitude
        char* e = nullptr;
        long double v = strtold(w[0].c_str(), &e);
        if (*e || !std::isfinite(v))
            return REF_UNCLEAR;
        s.cost = sut_real(w[0].c_str());
    }
    for (size_t q = 1; q < w.size(); ++q) {
        long long v = 0;
        if (!integer(w[q], v))
            return REF_UNCLEAR;
        s.idxs.push_back(v);
    }
    for (size_t q = 1; q < ls.size(); ++q)
        if (!words(ls[q]).empty())
            return REF_UNCLEAR;
    return REF_OK;
}

// ------------------------------------------------------------------------------- writers
string num_text(Rng& r, long double v) {
    int    d   = sut_real_digits() <= 24 ? 9 : sut_real_digits() <= 53 ? 17 : 21;
    string s;
    if (v == std::floor(v) && std::fabs(v) < 1e9L) {
        long long i = static_cast<long long>(v);
        switch (r.below(12)) {
        case 0: return strf("%lld.0", i);
        case 1: return strf("%lld.", i);
        case 2: return strf("%llde0", i);
        case 3: return i >= 0 ? strf("0%lld", i) : strf("%lld", i);
        case 4: return i % 10 == 0 && i ? strf("%llde+01", i / 10) : strf("%lld.000", i);
        default: return strf("%lld", i);
        }
    }
    s = strf("%.*Lg", d, v);
    if (r.chance(0.2))
        s = strf("%.*Le", d, v);
    return s;
}
static string sep(Rng& r, int st) {
    if (st == 0)
        return " ";
    if (st == 1)
        return "\t";
    if (st == 2)
        return "  ";
    return r.pick<string>({" ", "\t", "  ", " \t ", "    "});
}
string write_instance(Rng& r, string const& fmt, XInst const& x, XSol const* init) {
    int    st    = static_cast<int>(r.below(4));
    string nl    = r.chance(0.2) ? "\r\n" : "\n";
    bool   lead  = r.chance(0.3), trail = r.chance(0.3), plain = r.chance(0.5);
    string o;
    auto   beg = [&] { return lead ? sep(r, st) : string(); };
    auto   end = [&] { return (trail ? sep(r, st) : string()) + nl; };
    Rng    zero(5);
    auto   cost = [&](long double v) {
        if (plain && v == std::floor(v) && std::fabs(v) < 1e9L)
            return strf("%lld", static_cast<long long>(v));
        return num_text(r, v);
    };
    size_t m = x.cols.size();
    if (fmt == "RAIL") {
        o += beg() + strf("%d", x.nrows) + sep(r, st) + strf("%zu", m) + end();
        for (size_t j = 0; j < m; ++j) {
            o += beg() + cost(x.costs[j]) + sep(r, st) + strf("%zu", x.cols[j].size());
            for (int i : x.cols[j])
                o += sep(r, st) + strf("%d", i + 1);
            o += end();
        }
    } else if (fmt == "SCP") {
        size_t wrap = r.pick<size_t>({1, 5, 12, 15, 1000000});
        o += beg() + strf("%d", x.nrows) + sep(r, st) + strf("%zu", m) + end();
        for (size_t j = 0; j < m; ++j) {
            o += (j % wrap ? sep(r, st) : beg()) + cost(x.costs[j]);
            if (j + 1 == m || (j + 1) % wrap == 0)
                o += end();
        }
        vector<vector<size_t>> rows(static_cast<size_t>(x.nrows));
        for (size_t j = 0; j < m; ++j)
            for (int i : x.cols[j])
                rows[static_cast<size_t>(i)].push_back(j + 1);
        for (auto const& l : rows) {
            o += beg() + strf("%zu", l.size()) + end();
            for (size_t k = 0; k < l.size(); ++k) {
                o += (k % wrap ? sep(r, st) : beg()) + strf("%zu", l[k]);
                if (k + 1 == l.size() || (k + 1) % wrap == 0)
                    o += end();
            }
        }
    } else if (fmt == "CVRP") {
        o += beg() + strf("%d", x.nrows) + sep(r, st) + strf("%zu", m) + end();
        for (size_t j = 0; j < m; ++j) {
            o += beg() + cost(x.costs[j]) + sep(r, st) + cost(sut_cast(x.costs[j] + static_cast<long double>(r.below(5))));
            for (int i : x.cols[j])
                o += sep(r, st) + strf("%d", i);
            o += end();
        }
        if (init) {
            for (size_t k = 0; k < init->idxs.size(); ++k)
                o += (k ? sep(r, st) : beg()) + strf("%lld", init->idxs[k]);
            o += end();
        }
    } else {
        string obj = r.pick<string>({"COST", "obj", "OBJ", "N1"});
        string pre = r.pick<string>({"R", "row_", "c", "ROW", "constraint_of_row_", "r(", "7"});
        if (r.chance(0.3))
            o += "* a comment" + nl;
        if (r.chance(0.9))
            o += "NAME" + sep(r, st) + "sim" + nl;
        if (r.chance(0.1))
            o += "OBJSENSE" + nl + "    MIN" + nl;
        int    at_row = r.chance(0.7) ? 0 : static_cast<int>(r.below(static_cast<uint64_t>(x.nrows)));
        string cpre   = r.pick<string>({"x", "x", "C", "column_number_", "the_same_twenty_chars", "1", "R", "row_"});
        string csuf   = r.pick<string>({"", "", "_", "(a)", "#0"});
        o += "ROWS" + nl;
        for (int i = 0; i < x.nrows; ++i) {
            if (i == at_row)
                o += " N" + sep(r, st) + obj + end();
            o += " " + r.pick<string>({"G", "G", "G", "E"}) + sep(r, st) + pre + strf("%d", i) + end();
        }
        o += "COLUMNS" + nl;
        if (r.chance(0.4))
            o += "    MARKER" + sep(r, st) + "'MARKER'" + sep(r, st) + "'INTORG'" + end();
        for (size_t j = 0; j < m; ++j) {
            vector<std::pair<string, string>> es;
            for (int i : x.cols[j])
                es.emplace_back(pre + strf("%d", i), r.chance(plain ? 0.0 : 0.2) ? "1.0" : "1");
            size_t at = r.chance(0.7) ? 0 : r.below(es.size() + 1);
            if (x.costs[j] != 0 || es.empty() || r.chance(0.5))  // without an entry the cost is zero
                es.insert(es.begin() + static_cast<long>(at), std::make_pair(obj, cost(x.costs[j])));
            size_t k = 0;
            while (k < es.size()) {
                size_t per = r.chance(0.5) ? 2 : 1;
                o += "    " + cpre + strf("%zu", j) + csuf;
                for (size_t q = 0; q < per && k < es.size(); ++q, ++k)
                    o += sep(r, st) + es[k].first + sep(r, st) + es[k].second;
                o += end();
            }
        }
        o += "RHS" + nl;
        for (int i = 0; i < x.nrows; i += 2) {
            o += "    RHS" + sep(r, st) + pre + strf("%d", i) + sep(r, st) + "1";
            if (i + 1 < x.nrows)
                o += sep(r, st) + pre + strf("%d", i + 1) + sep(r, st) + "1";
            o += nl;
        }
        o += "BOUNDS" + nl;
        for (size_t j = 0; j < m; ++j)
            o += " UP BND " + cpre + strf("%zu", j) + csuf + " 1" + nl;
        o += "ENDATA" + nl;
    }
    if (fmt != "MPS" && r.chance(0.3) && !o.empty()) {
        o.pop_back();
        if (!o.empty() && o.back() == '\r')
            o.pop_back();
    }
    return o;
}
string write_sol_text(Rng& r, XSol const& s) {
    string o = r.chance(0.1) ? "  " : "";
    o += num_text(r, s.cost);
    int st = static_cast<int>(r.below(4));
    for (auto j : s.idxs)
        o += sep(r, st) + strf("%lld", j);
    if (r.chance(0.5))
        o += r.pick<string>({"\n", "\r\n", " \n"});
    return o;
}
static string odd_number(Rng& r) {
    return r.pick<string>({"0", "-1", "-2", "1", "65535", "65536", "32767", "32768", "-32768", "2147483647", "2147483648", "-2147483648",
                           "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
                           "99999999999999999999999", "-9223372036854775809", "1e9", "1e39", "1e400", "-1e39", "nan", "inf", "-inf", "0x10", "1e", ".", "-",
                           "+", "1.5", "255", "256", "257", "127", "128", "1000000", "16777217", "1e-400", "0.1", "1,5", "--1", "1e5"});
}
string damage(Rng& r, string s, string const& other) {
    int n = static_cast<int>(r.pick({1, 1, 1, 2, 3, 6}));
    for (int k = 0; k < n; ++k) {
        size_t sz = s.size();
        if (!sz) {
            s = other.substr(0, r.below(other.size() + 1));
            continue;
        }
        size_t a = r.below(sz), b = std::min(sz, a + 1 + r.below(r.chance(0.5) ? 16 : 512));
        auto   tok = [&](size_t& x, size_t& y) {
            x = a;
            while (x < sz && space(s[x]))
                ++x;
            while (x > 0 && x <= sz && !space(s[x - 1]))
                --x;
            y = x;
            while (y < sz && !space(s[y]))
                ++y;
        };
        auto line = [&](size_t& x, size_t& y) {
            x = s.rfind('\n', a ? a - 1 : 0);
            x = x == string::npos || a == 0 ? 0 : x + 1;
            y = s.find('\n', a);
            y = y == string::npos ? sz : y + 1;
        };
        size_t x = 0, y = 0;
        switch (r.below(27)) {
        case 0: s[a] = static_cast<char>(s[a] ^ (1 << r.below(8))); break;
        case 1: s[a] = static_cast<char>(r.below(256)); break;
        case 2: s[a] = r.pick({' ', '\n', '0', '9', '-', '\t', '.', 'e'}); break;
        case 3: memset(&s[a], 0, b - a); break;
        case 4: s.erase(a, b - a); break;
        case 5: s.insert(b, s.substr(a, b - a)); break;
        case 6: s.resize(a); break;
        case 7:
        case 8:
        case 9:
        case 10: tok(x, y); s.replace(x, y - x, odd_number(r)); break;
        case 11: tok(x, y); s.erase(x, y - x); break;
        case 12: tok(x, y); s.insert(x, odd_number(r) + " "); break;
        case 13: line(x, y); s.erase(x, y - x); break;
        case 14: line(x, y); s.insert(y, s.substr(x, y - x)); break;
        case 15: {  // misplaced sector
            size_t blk = r.pick<size_t>({16, 64, 512});
            size_t p = r.below(sz / blk + 1) * blk, q = r.below(sz / blk + 1) * blk;
            for (size_t i = 0; i < blk && p + i < sz && q + i < sz; ++i)
                std::swap(s[p + i], s[q + i]);
            break;
        }
        case 16: {  // sector of another file
            size_t blk = r.pick<size_t>({16, 64, 512});
            size_t p   = r.below(sz / blk + 1) * blk;
            for (size_t i = 0; i < blk && p + i < sz && p + i < other.size(); ++i)
                s[p + i] = other[p + i];
            break;
        }
        case 17: {  // sizes line
            size_t e = s.find('\n');
            a        = r.below(e == string::npos ? sz : e + 1);
            if (a >= sz)
                a = 0;
            tok(x, y);
            s.replace(x, y - x, odd_number(r));
            break;
        }
        case 18: {  // small change of a number
            tok(x, y);
            long long v = strtoll(s.substr(x, y - x).c_str(), nullptr, 10) + r.pick<long long>({-1, 1, 2, 10, -10});
            s.replace(x, y - x, strf("%lld", v));
            break;
        }
        case 19: {  // two lines change places
            line(x, y);
            size_t z = y < sz ? s.find('\n', y) : string::npos;
            if (z != string::npos)
                s = s.substr(0, x) + s.substr(y, z + 1 - y) + s.substr(x, y - x) + s.substr(z + 1);
            break;
        }
        case 20:
        case 21: {  // a token and its successor get lost (MPS: an entry of a column)
            tok(x, y);
            size_t z = y;
            while (z < sz && (s[z] == ' ' || s[z] == '\t'))
                ++z;
            while (z < sz && !space(s[z]))
                ++z;
            s.erase(x, z - x);
            break;
        }
        case 22:
        case 23: {  // a token replaced by another one of the file
            tok(x, y);
            size_t u = 0, v = 0;
            a = r.below(sz);
            tok(u, v);
            s.replace(x, y - x, s.substr(u, v - u));
            break;
        }
        case 24: {  // every occurrence of a token (or all but the first) gets lost, alone or with its successor
            tok(x, y);
            string t    = s.substr(x, y - x);
            bool   pair = r.chance(0.5);
            if (t.empty())
                break;
            size_t from = r.chance(0.5) ? 0 : s.find(t) + t.size();
            for (size_t p = s.find(t, from); p != string::npos; p = s.find(t, p)) {
                size_t z = p + t.size();
                if ((p > 0 && !space(s[p - 1])) || (z < s.size() && !space(s[z]))) {
                    p = z;
                    continue;
                }
                if (pair) {
                    while (z < s.size() && (s[z] == ' ' || s[z] == '\t'))
                        ++z;
                    while (z < s.size() && !space(s[z]))
                        ++z;
                }
                s.erase(p, z - p);
            }
            break;
        }
        case 25: tok(x, y); s.insert(x, s.substr(x, y - x) + " "); break;
        default: s.insert(a, r.pick<string>({"\n", " ", "\r", string(1, '\0'), "ROWS\n", "COLUMNS\n", "RHS\n", " N\n", " G\n", "\xff\xfe", "1 1 1 1\n"})); break;
        }
    }
    return s;
}
