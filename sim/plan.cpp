#include "plan.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <sstream>

std::string strf(char const* f, ...) {
    char    b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static std::string num(long double v) {
    char b[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15L)
        snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
    else
        snprintf(b, sizeof b, "%.21Lg", v);
    return b;
}
Op& Op::setf(std::string const& k, long double v) {
    kv[k] = num(v);
    return *this;
}
static std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s)
        if (c > 32 && c < 127 && c != '\\')
            o += static_cast<char>(c);
        else if (c == ' ')
            o += "\\_";
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    return o;
}
static std::string unesc(std::string const& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\') {
            o += s[i];
            continue;
        }
        if (i + 1 < s.size() && s[i + 1] == '_') {
            o += ' ';
            ++i;
        } else if (i + 3 < s.size()) {
            o += static_cast<char>(strtol(s.substr(i + 2, 2).c_str(), nullptr, 16));
            i += 3;
        }
    }
    return o;
}

std::string Plan::text() const {
    std::ostringstream o;
    o << "prop " << prop << "\nvar " << var << "\nseed " << seed << "\n";
    for (auto const& in : insts) {
        o << "inst " << in.x.nrows << "\n";
        for (size_t j = 0; j < in.x.cols.size(); ++j) {
            o << "col " << num(in.x.costs[j]);
            for (int i : in.x.cols[j])
                o << " " << i;
            o << "\n";
        }
        if (in.has_warm) {
            o << "warm " << num(in.warm.cost);
            for (auto i : in.warm.idxs)
                o << " " << i;
            o << "\n";
        }
    }
    for (auto const& p : params)
        o << "params seed=" << p.seed << " limit=" << num(static_cast<long double>(p.time_limit)) << " verbose=" << p.verbose
          << " eps=" << num(p.eps) << " heur=" << p.heur << " alpha=" << num(p.alpha)
          << " beta=" << num(p.beta) << " abs=" << num(p.abs_exit) << " rel=" << num(p.rel_exit)
          << " minfix=" << num(p.min_fixing) << " unit=" << (p.unit ? 1 : 0) << "\n";
    for (auto const& n : file_order) {
        o << "file " << n << "\n";
        std::string const& d = files.at(n);
        size_t             b = 0;
        while (b < d.size()) {
            size_t e = d.find('\n', b);
            e        = e == std::string::npos ? d.size() : e + 1;
            e        = std::min(e, b + 160);
            o << "data " << esc(d.substr(b, e - b)) << "\n";
            b = e;
        }
    }
    for (auto const& p : ops) {
        o << "op " << p.name;
        for (auto const& k : p.kv)
            o << " " << k.first << "=" << esc(k.second);
        o << "\n";
    }
    return o.str();
}
bool Plan::parse(std::string const& t, Plan& p, std::string& err) {
    std::istringstream is(t);
    std::string        line, curfile;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream ls(line);
        std::string        k;
        ls >> k;
        if (k == "prop")
            ls >> p.prop;
        else if (k == "var")
            ls >> p.var;
        else if (k == "seed")
            ls >> p.seed;
        else if (k == "inst") {
            p.insts.emplace_back();
            ls >> p.insts.back().x.nrows;
        } else if (k == "col" || k == "warm") {
            if (p.insts.empty()) {
                err = "column without instance";
                return false;
            }
            std::string c;
            ls >> c;
            long double v = strtold(c.c_str(), nullptr);
            long long   i;
            if (k == "col") {
                p.insts.back().x.costs.push_back(v);
                p.insts.back().x.cols.emplace_back();
                while (ls >> i)
                    p.insts.back().x.cols.back().push_back(static_cast<int>(i));
            } else {
                p.insts.back().has_warm  = true;
                p.insts.back().warm.cost = v;
                while (ls >> i)
                    p.insts.back().warm.idxs.push_back(i);
            }
        } else if (k == "params" || k == "op") {
            Op o;
            if (k == "op")
                ls >> o.name;
            std::string w;
            while (ls >> w) {
                size_t e = w.find('=');
                if (e == std::string::npos) {
                    err = "bad word " + w;
                    return false;
                }
                o.kv[w.substr(0, e)] = unesc(w.substr(e + 1));
            }
            if (k == "op") {
                p.ops.push_back(o);
                continue;
            }
            XParams x;
            x.seed       = o.u("seed");
            x.time_limit = static_cast<double>(o.f("limit", -1));
            x.verbose    = o.u("verbose");
            x.eps        = o.f("eps", x.eps);
            x.heur       = o.u("heur", x.heur);
            x.alpha      = o.f("alpha", x.alpha);
            x.beta       = o.f("beta", x.beta);
            x.abs_exit   = o.f("abs", x.abs_exit);
            x.rel_exit   = o.f("rel", x.rel_exit);
            x.min_fixing = o.f("minfix", x.min_fixing);
            x.unit       = o.i("unit") != 0;
            p.params.push_back(x);
        } else if (k == "file") {
            ls >> curfile;
            if (!p.files.count(curfile))
                p.file_order.push_back(curfile);
            p.files[curfile] = "";
        } else if (k == "data") {
            std::string d;
            ls >> d;
            p.files[curfile] += unesc(d);
        } else {
            err = "unknown line " + line;
            return false;
        }
    }
    for (auto& in : p.insts) {
        std::vector<char> cov(static_cast<size_t>(in.x.nrows), 0);
        if (in.x.nrows < 1 || in.x.cols.empty()) {
            err = "empty instance";
            return false;
        }
        for (auto const& c : in.x.cols)
            for (int i : c) {
                if (i < 0 || i >= in.x.nrows) {
                    err = "row out of range";
                    return false;
                }
                cov[static_cast<size_t>(i)] = 1;
            }
        for (char c : cov)
            if (!c) {
                err = "uncoverable";
                return false;
            }
        for (auto& c : in.x.costs)
            c = sut_cast(c);
        if (in.has_warm) {
            std::string why;
            if (!feasible(in.x, in.warm.idxs, why)) {
                err = "warm start infeasible: " + why;
                return false;
            }
            in.warm.cost = sut_cast(exact_cost(in.x, in.warm.idxs));
        }
    }
    return true;
}

// ------------------------------------------------------------------------------ oracles
bool feasible(XInst const& x, std::vector<long long> const& idxs, std::string& why) {
    std::vector<char>   cov(static_cast<size_t>(x.nrows), 0);
    std::set<long long> seen;
    for (long long j : idxs) {
        if (j < 0 || j >= static_cast<long long>(x.cols.size())) {
            why = strf("column index %lld out of range (%zu columns)", j, x.cols.size());
            return false;
        }
        if (!seen.insert(j).second) {
            why = strf("column %lld listed twice", j);
            return false;
        }
        for (int i : x.cols[static_cast<size_t>(j)])
            cov[static_cast<size_t>(i)] = 1;
    }
    for (int i = 0; i < x.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            why = strf("row %d not covered", i);
            return false;
        }
    return true;
}
long double exact_cost(XInst const& x, std::vector<long long> const& idxs) {
    long double c = 0;
    for (long long j : idxs)
        c += x.costs[static_cast<size_t>(j)];
    return c;
}
bool sums_exact(XInst const& x) {
    long double tot = 0;
    for (long double c : x.costs) {
        if (c < 0 || c * 8 != std::floor(c * 8))
            return false;
        tot += c;
    }
    return tot * 8 < std::ldexp(1.0L, std::min(sut_real_digits(), 60));
}
bool cost_matches(XInst const& x, XSol const& s, std::string& why) {
    long double e = exact_cost(x, s.idxs);
    bool        ok;
    if (sums_exact(x))
        ok = s.cost == e;
    else {
        long double mag = 0;
        for (long double c : x.costs)
            mag = std::max(mag, std::fabs(c));
        long double tol = sut_eps() * 8 * (static_cast<long double>(s.idxs.size()) + 8) * (e + mag);
        ok = std::fabs(s.cost - e) <= tol;
    }
    if (!ok)
        why = strf("reported cost %.12Lg, actual cost %.12Lg", s.cost, e);
    return ok;
}
bool check_sol(XInst const& x, XSol const& s, std::string& cls, std::string& why) {
    if (!feasible(x, s.idxs, why)) {
        cls = "infeasible";
        return false;
    }
    if (!cost_matches(x, s, why)) {
        cls = "wrong-cost";
        return false;
    }
    return true;
}
long double optimum(XInst const& x) {
    int                   n = x.nrows;
    std::vector<long double> d(1u << n, -1);
    std::vector<unsigned> m;
    std::vector<std::vector<int>> by(static_cast<size_t>(n));
    for (size_t j = 0; j < x.cols.size(); ++j) {
        unsigned b = 0;
        for (int i : x.cols[j])
            b |= 1u << i;
        m.push_back(b);
        for (int i = 0; i < n; ++i)
            if (b >> i & 1)
                by[static_cast<size_t>(i)].push_back(static_cast<int>(j));
    }
    d[0]          = 0;
    unsigned full = (1u << n) - 1;
    for (unsigned s = 0; s <= full; ++s) {
        if (d[s] < 0 || s == full)
            continue;
        int i = 0;
        while (s >> i & 1)
            ++i;
        for (int j : by[static_cast<size_t>(i)]) {
            unsigned    t = s | m[static_cast<size_t>(j)];
            long double c = d[s] + x.costs[static_cast<size_t>(j)];
            if (d[t] < 0 || c < d[t])
                d[t] = c;
        }
    }
    return d[full];
}
XInst unit_of(XInst const& x) {
    XInst y = x;
    for (auto& c : y.costs)
        c = 1;
    return y;
}
std::string sol_str(XSol const& s) {
    std::string o = strf("%La", s.cost);
    for (auto j : s.idxs)
        o += strf(" %lld", j);
    return o;
}
std::string res_str(XRes const& r) {
    std::string o = sol_str(r.sol) + strf(" | %La |", r.lb);
    for (auto m : r.mults)
        o += strf(" %La", m);
    return o;
}
uint64_t hstr(std::string const& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ULL;
    return h;
}

// --------------------------------------------------------------------------- generators
static void make_coverable(Rng& r, XInst& x, long double cost) {
    std::vector<char> cov(static_cast<size_t>(x.nrows), 0);
    for (auto const& c : x.cols)
        for (int i : c)
            cov[static_cast<size_t>(i)] = 1;
    for (int i = 0; i < x.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            if (!x.cols.empty() && r.chance(0.5)) {
                auto& c = x.cols[r.below(x.cols.size())];
                c.push_back(i);
            } else {
                x.cols.push_back({i});
                x.costs.push_back(cost);
            }
        }
}
static std::vector<int> subset(Rng& r, int n, int k) {
    std::vector<int> v;
    if (k * 4 >= n) {
        std::vector<int> a(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            a[static_cast<size_t>(i)] = i;
        r.shuffle(a);
        a.resize(static_cast<size_t>(std::min(k, n)));
        return a;
    }
    std::set<int> s;
    while (static_cast<int>(s.size()) < k)
        s.insert(static_cast<int>(r.below(static_cast<uint64_t>(n))));
    v.assign(s.begin(), s.end());
    return v;
}
XSol random_cover(Rng& r, XInst const& x) {
    XSol                s;
    std::vector<char>   cov(static_cast<size_t>(x.nrows), 0);
    std::vector<std::vector<int>> by(static_cast<size_t>(x.nrows));
    for (size_t j = 0; j < x.cols.size(); ++j)
        for (int i : x.cols[j])
            by[static_cast<size_t>(i)].push_back(static_cast<int>(j));
    std::vector<int> order;
    for (int i = 0; i < x.nrows; ++i)
        order.push_back(i);
    r.shuffle(order);
    std::set<int> in;
    bool          greedy = r.chance(0.4);
    for (int i : order) {
        if (cov[static_cast<size_t>(i)])
            continue;
        auto const& b = by[static_cast<size_t>(i)];
        int         j = b[r.below(b.size())];
        if (greedy)
            for (int c : b)
                if (x.costs[static_cast<size_t>(c)] < x.costs[static_cast<size_t>(j)])
                    j = c;
        in.insert(j);
        s.idxs.push_back(j);
        for (int k : x.cols[static_cast<size_t>(j)])
            cov[static_cast<size_t>(k)] = 1;
    }
    if (r.chance(0.2)) {  // redundant extra columns are allowed in a warm start
        int n = static_cast<int>(r.in(1, 3));
        for (int k = 0; k < n; ++k) {
            int j = static_cast<int>(r.below(x.cols.size()));
            if (in.insert(j).second)
                s.idxs.push_back(j);
        }
    }
    s.cost = exact_cost(x, s.idxs);
    return s;
}
// Instances beyond the ranges of small integer types, for short searches.
static void gen_huge(Rng& r, GenLim const& l, XInst& x) {
    int  cap  = static_cast<int>(std::min<long long>(sut_max_rows(), 1000));
    auto add  = [&](std::vector<int> v, int c) {
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        r.shuffle(v);
        x.cols.push_back(v);
        x.costs.push_back(c);
    };
    auto row  = [&] { return static_cast<int>(r.below(static_cast<uint64_t>(x.nrows))); };
    switch (l.tiny ? 2 : l.dense_only ? 4 : r.below(5)) {
    case 4: {  // more nonzeros than a 16-bit integer can count
        x.nrows = static_cast<int>(r.in(std::min(cap, 200), std::min(cap, 300)));
        int  len = static_cast<int>(r.in(x.nrows / 4, x.nrows / 2));
        long long nz = r.in(33000, r.chance(0.7) ? 40000 : 72000);
        for (long long k = 0; k < nz; k += len)
            add(subset(r, x.nrows, len), static_cast<int>(r.in(1, 50)));
        break;
    }
    case 0:
    case 1: {  // a few rows in nearly every column
        x.nrows = static_cast<int>(r.in(std::min(cap, 258), std::min(cap, 330)));
        int h   = static_cast<int>(r.in(1, 3)), cm = static_cast<int>(r.pick({1, 3, 9}));
        for (int i = h; i < x.nrows; ++i)
            for (int k = static_cast<int>(r.in(1, 3)); k > 0; --k) {
                std::vector<int> v{i};
                for (int q = 0; q < h; ++q)
                    if (r.chance(0.95))
                        v.push_back(q);
                if (r.chance(0.05))
                    v.push_back(row());
                add(v, static_cast<int>(r.in(1, cm)));
            }
        break;
    }
    case 2: {  // many columns
        x.nrows = static_cast<int>(r.in(2, 10));
        int m   = static_cast<int>(std::min<long long>(sut_max_cols() / 4, r.chance(0.5) ? r.in(33000, 36000) : r.in(66000, 70000)));
        for (int j = 0; j < m; ++j) {
            std::vector<int> v{row()};
            if (r.chance(0.3))
                v.push_back(row());
            add(v, static_cast<int>(r.in(1, 1000)));
        }
        break;
    }
    default:
        x.nrows = static_cast<int>(r.in(cap / 2, cap));
        for (int j = static_cast<int>(r.in(1, 2)) * x.nrows; j > 0; --j) {
            std::vector<int> v;
            for (int k = static_cast<int>(r.in(1, 6)); k > 0; --k)
                v.push_back(row());
            add(v, static_cast<int>(r.in(1, 100)));
        }
    }
    make_coverable(r, x, 3);
    r.shuffle(x.cols);
}
PlanInst gen_inst(Rng& r, GenLim const& l) {
    PlanInst pi;
    if (l.huge_p > 0 && r.chance(l.huge_p)) {
        gen_huge(r, l, pi.x);
        pi.has_warm = true;
        pi.warm     = random_cover(r, pi.x);
        return pi;
    }
    XInst&   x = pi.x;
    int      maxr = static_cast<int>(std::min<long long>(l.max_rows, std::min<long long>(sut_max_rows(), 4000)));
    int      n;
    uint64_t z = r.below(100);
    if (l.tiny)
        n = z < 15 ? static_cast<int>(r.in(1, 3)) : static_cast<int>(r.in(4, 14));
    else if (z < 8)
        n = static_cast<int>(r.in(1, 3));
    else if (z < 60)
        n = static_cast<int>(r.in(4, 20));
    else if (z < 100 - static_cast<uint64_t>(l.big_p * 100))
        n = static_cast<int>(r.in(20, 50));
    else
        n = static_cast<int>(r.in(60, std::max(61, maxr)));
    n = std::max(l.min_rows, std::min(n, maxr));
    x.nrows   = n;
    int fam   = static_cast<int>(r.below(16));
    if (l.exact && fam == 11)
        fam = 0;
    int ncols = static_cast<int>(r.in(1, 4) == 1 ? r.in(n, 12LL * n) : r.in(n / 2 + 1, 4LL * n + 4));
    if (n > 150)
        ncols = std::min(ncols, 6 * n);
    ncols = static_cast<int>(std::min<long long>(ncols, std::min<long long>(sut_max_cols() / 4, 4000)));
    if (l.tiny)
        ncols = std::min(ncols, 60);
    auto add = [&](std::vector<int> rows, long double c) {
        r.shuffle(rows);
        x.cols.push_back(rows);
        x.costs.push_back(c);
    };
    int         maxlen = std::max(1, std::min(n, static_cast<int>(r.in(1, 3) == 1 ? r.in(2, std::max(2, n / 2)) : r.in(2, 12))));
    long double fillc  = static_cast<long double>(r.in(1, 20));
    switch (fam) {
    case 0: {
        int cmax = static_cast<int>(r.pick({1, 2, 3, 10, 100, 1000}));
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), r.in(1, cmax));
        break;
    }
    case 1:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), 1);
        fillc = 1;
        break;
    case 2:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, std::min(n, static_cast<int>(r.in(2, 12)))), r.in(1, 2));
        fillc = 2;
        break;
    case 3:
        for (int j = 0; j < ncols; ++j) {
            int              len = static_cast<int>(r.in(1, std::max(1, n / 4)));
            int              b   = static_cast<int>(r.in(0, n - 1));
            std::vector<int> v;
            for (int k = 0; k < len; ++k)
                v.push_back((b + k) % n);
            add(v, 2 + len + r.in(0, 5));
        }
        break;
    case 4: {  // Steiner triple system (Bose construction): rows = triples, columns = points
        int q = n < 14 ? 1 : n < 40 ? 3 : n < 120 ? 5 : 7;
        if (l.tiny)
            q = 3;
        q                 = q < 3 ? 3 : q;
        int          m    = q;  // odd
        int          pts  = 3 * m;
        std::vector<std::vector<int>> tr;
        auto id = [&](int a, int k) { return a + m * k; };
        for (int a = 0; a < m; ++a)
            tr.push_back({id(a, 0), id(a, 1), id(a, 2)});
        for (int a = 0; a < m; ++a)
            for (int b = a + 1; b < m; ++b) {
                int h = ((a + b) * ((m + 1) / 2)) % m;
                for (int k = 0; k < 3; ++k)
                    tr.push_back({id(a, k), id(b, k), id(h, (k + 1) % 3)});
            }
        if (static_cast<int>(tr.size()) > maxr || (l.tiny && tr.size() > 14))
            tr.resize(static_cast<size_t>(std::min(maxr, l.tiny ? 14 : maxr)));
        x.nrows = n = static_cast<int>(tr.size());
        std::vector<std::vector<int>> cols(static_cast<size_t>(pts));
        for (int t = 0; t < n; ++t)
            for (int p : tr[static_cast<size_t>(t)])
                cols[static_cast<size_t>(p)].push_back(t);
        for (auto& c : cols)
            if (!c.empty())
                add(c, 1);
        break;
    }
    case 5: {  // many cheap single-row columns plus large ones: redundancy removal works hard
        for (int i = 0; i < n; ++i)
            if (r.chance(0.9))
                add({i}, r.in(1, 3));
        int k = static_cast<int>(r.in(2, std::max(2, n / 3)));
        for (int j = 0; j < k; ++j)
            add(subset(r, n, static_cast<int>(r.in(std::max(1, n / 4), std::max(1, n / 2)))), r.in(2, n + 2));
        break;
    }
    case 6: {  // blocks
        int b = static_cast<int>(r.in(2, 6));
        for (int j = 0; j < ncols; ++j) {
            int k = static_cast<int>(r.below(static_cast<uint64_t>(b)));
            std::vector<int> v;
            for (int i = k; i < n; i += b)
                if (r.chance(0.4))
                    v.push_back(i);
            if (r.chance(0.05))
                v.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n))));
            std::sort(v.begin(), v.end());
            v.erase(std::unique(v.begin(), v.end()), v.end());
            if (v.empty())
                v.push_back(k % n);
            add(v, r.in(1, 30));
        }
        break;
    }
    case 7:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))),
                std::floor(std::pow(10.0L, static_cast<long double>(r.real()) * 4.5L)));
        break;
    case 8:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), (r.chance(0.25) && !l.nonzero) ? 0 : r.in(1, 9));
        break;
    case 9: {
        for (int j = 0; j < ncols; ++j)
            if (j == 0 || r.chance(0.5))
                add(subset(r, n, static_cast<int>(r.in(1, maxlen))), r.in(1, 20));
            else {
                size_t           k = r.below(x.cols.size());
                std::vector<int> v = x.cols[k];
                long double      c = x.costs[k];
                if (r.chance(0.5) && v.size() > 1)
                    v.pop_back();
                add(v, r.chance(0.5) ? c : c + r.in(0, 2));
            }
        break;
    }
    case 10:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), static_cast<long double>(r.in(1, 200)) / 8);
        break;
    case 11:
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), 0.01L + 50 * static_cast<long double>(r.real()));
        break;
    case 12:  // forced rows
        for (int j = 0; j < ncols; ++j) {
            auto v = subset(r, n, static_cast<int>(r.in(1, maxlen)));
            if (j > 0)
                v.erase(std::remove_if(v.begin(), v.end(), [&](int i) { return i % 3 == 0; }), v.end());
            if (v.empty())
                v.push_back(n > 1 ? 1 : 0);
            add(v, r.in(1, 20));
        }
        break;
    case 13:  // all rows in one column as well
        for (int j = 0; j < ncols; ++j)
            add(subset(r, n, static_cast<int>(r.in(1, maxlen))), r.in(1, 12));
        {
            std::vector<int> all;
            for (int i = 0; i < n; ++i)
                all.push_back(i);
            add(all, r.in(1, 6 + n));
        }
        break;
    case 14:  // mostly free columns among wide ones
        for (int j = 0; j < ncols; ++j) {
            bool free = r.chance(0.3) && !l.nonzero;
            int  len  = free ? static_cast<int>(r.in(1, 3)) : static_cast<int>(r.in(1, std::max(1, n / 2)));
            add(subset(r, n, std::min(n, len)), free ? 0 : r.in(1, 5));
        }
        break;
    default: {  // costs proportional to size (tight LP)
        for (int j = 0; j < ncols; ++j) {
            auto v = subset(r, n, static_cast<int>(r.in(1, maxlen)));
            add(v, static_cast<long double>(v.size()) * 5 + r.in(0, 4));
        }
    }
    }
    make_coverable(r, x, fillc);
    // shuffle the columns
    std::vector<size_t> perm(x.cols.size());
    for (size_t i = 0; i < perm.size(); ++i)
        perm[i] = i;
    r.shuffle(perm);
    XInst y;
    y.nrows = x.nrows;
    for (size_t k : perm) {
        y.cols.push_back(x.cols[k]);
        y.costs.push_back(l.integral ? std::floor(x.costs[k]) + (x.costs[k] < 1 && l.nonzero) : x.costs[k]);
    }
    x           = y;
    for (auto& c : x.costs)
        c = sut_cast(c);
    pi.has_warm = true;
    pi.warm     = random_cover(r, x);
    return pi;
}
XParams gen_params(Rng& r, XInst const& x) {
    XParams p;
    p.seed = r.chance(0.3) ? r.below(3) : r.next() >> static_cast<unsigned>(r.below(40));
    bool integral = true;
    for (auto c : x.costs)
        integral = integral && c == std::floor(c);
    p.eps = r.chance(0.6) ? (integral ? 0.999L : 0.001L) : r.pick({0.999L, 0.5L, 0.1L, 1e-3L, 0.0L, 2.5L});
    size_t nnz = 0;
    for (auto const& c : x.cols)
        nnz += c.size();
    bool small = nnz < 300;
    p.heur = r.chance(0.3) ? 250 : r.pick<uint64_t>({0, 1, 2, 10, 30, 60, 100});
    if (small && r.chance(0.1))
        p.heur = static_cast<uint64_t>(r.in(250, 1500));
    if (nnz > 3000)
        p.heur = std::min<uint64_t>(p.heur, 60);
    p.alpha      = r.chance(0.5) ? 1.1L : r.pick({1.002L, 1.01L, 1.05L, 1.3L, 2.0L, 10.0L});
    p.min_fixing = r.chance(0.5) ? 0.3L : r.pick({0.02L, 0.05L, 0.15L, 0.5L, 0.9L, 1.0L});
    bool many = r.chance(0.02);
    p.beta     = r.chance(0.6) ? 1.0L : r.pick({0.9L, 1.02L, 1.2L, 0.0L, 2.0L});
    p.abs_exit = r.chance(0.6) ? 1.0L : r.pick({0.0L, 0.1L, 10.0L});
    p.rel_exit = r.chance(0.6) ? 0.001L : r.pick({0.0L, 0.01L, 0.1L});
    if (nnz > 2000 && p.rel_exit == 0 && p.abs_exit == 0)
        p.rel_exit = 0.001L;
    if (x.nrows > 200 || nnz > 10000) {
        p.heur       = std::min<uint64_t>(p.heur, 4);
        p.abs_exit   = 10;
        p.rel_exit   = 0.1L;
        p.alpha      = std::max(p.alpha, 2.0L);
        p.min_fixing = std::max(p.min_fixing, 0.3L);
        p.beta       = std::max(p.beta, 0.9L);
    } else if (r.chance(0.2)) {  // weak search: the refinement has to find the improvements
        p.heur       = r.below(4);
        p.abs_exit   = 10;
        p.rel_exit   = 0.1L;
        p.beta       = r.pick({0.0L, 1.0L});
        p.min_fixing = r.pick({0.05L, 0.1L, 0.2L, 0.3L});
    }
    // Keep the number of refinement rounds in proportion to the size of the instance.
    long double its  = many ? 300 : std::min(300.0L, std::max(3.0L, 12000.0L / static_cast<long double>(nnz)));
    long double need = std::pow(1.0L / p.min_fixing, 1 / its);
    if (p.alpha < need)
        p.alpha = std::ceil(need * 1000) / 1000 + 0.001L;
    return p;
}
