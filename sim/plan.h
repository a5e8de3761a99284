// Plans (one plan = one exactly repeatable simulated execution), generators and oracles.
#pragma once
#include <cmath>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "sut.h"

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long long in(long long a, long long b) { return a + static_cast<long long>(below(static_cast<uint64_t>(b - a + 1))); }
    double real() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool   chance(double p) { return real() < p; }
    template <typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <typename T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
};

using KV = std::map<std::string, std::string>;
struct Op {
    std::string name;
    KV          kv;
    bool        has(std::string const& k) const { return kv.count(k) > 0; }
    std::string str(std::string const& k, std::string const& d = "") const {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
    long long i(std::string const& k, long long d = 0) const {
        auto it = kv.find(k);
        return it == kv.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
    }
    uint64_t u(std::string const& k, uint64_t d = 0) const {
        auto it = kv.find(k);
        return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10);
    }
    long double f(std::string const& k, long double d = 0) const {
        auto it = kv.find(k);
        return it == kv.end() ? d : strtold(it->second.c_str(), nullptr);
    }
    Op& set(std::string const& k, std::string const& v) { kv[k] = v; return *this; }
    Op& set(std::string const& k, char const* v) { kv[k] = v; return *this; }
    Op& set(std::string const& k, long long v) { kv[k] = std::to_string(v); return *this; }
    Op& set(std::string const& k, uint64_t v) { kv[k] = std::to_string(v); return *this; }
    Op& set(std::string const& k, int v) { kv[k] = std::to_string(v); return *this; }
    Op& set(std::string const& k, unsigned v) { kv[k] = std::to_string(v); return *this; }
    Op& setf(std::string const& k, long double v);
};
struct PlanInst {
    XInst       x;
    bool        has_warm = false;
    XSol        warm;  // feasible cover
};
struct Plan {
    std::string                        prop;
    std::string                        var;
    uint64_t                           seed = 0;
    std::vector<PlanInst>              insts;
    std::vector<XParams>               params;
    std::map<std::string, std::string> files;
    std::vector<std::string>           file_order;
    std::vector<Op>                    ops;
    std::string text() const;
    static bool parse(std::string const& text, Plan& out, std::string& err);
};

// Limits of a generated instance
struct GenLim {
    int  max_rows = 140;
    int  min_rows = 1;
    bool exact    = false;   // only costs whose sums are exact
    bool tiny     = false;   // rows <= 14
    double big_p  = 0.1;
    double huge_p = 0;       // many rows, many columns on one row, or many columns
    bool   dense_only = false;  // of those, only instances with many nonzeros
    bool nonzero  = false;
    bool integral = false;
};
PlanInst gen_inst(Rng& r, GenLim const& l);
XParams  gen_params(Rng& r, XInst const& x);
XSol     random_cover(Rng& r, XInst const& x);   // feasible, no obvious redundancy guarantee

// Oracles
bool        feasible(XInst const& x, std::vector<long long> const& idxs, std::string& why);
long double exact_cost(XInst const& x, std::vector<long long> const& idxs);
bool        sums_exact(XInst const& x);
bool        cost_matches(XInst const& x, XSol const& s, std::string& why);
long double optimum(XInst const& x);            // rows <= 20
bool        check_sol(XInst const& x, XSol const& s, std::string& cls, std::string& why);
XInst       unit_of(XInst const& x);
std::string res_str(XRes const& r);             // bit-exact rendering
std::string sol_str(XSol const& s);
uint64_t    hstr(std::string const& s);
std::string strf(char const* f, ...) __attribute__((format(printf, 1, 2)));
