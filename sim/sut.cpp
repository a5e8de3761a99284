// The only translation unit that contains code of /repo. Compiled with trace-pc instrumentation.
#include <cstdlib>
#include <exception>
#include <limits>
#include <new>

#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/cft.hpp"
#include "core/parsing.hpp"
#include "utils/print.hpp"

#ifdef SUT_DEBUG
#define accft_main accftd_main
#endif
#define main accft_main
#include "main.cpp"
#undef main

#include "rt.h"
#include "sut.h"

#ifdef SUT_DEBUG  // built a second time: with assertions, cft renamed, the wrappers in namespace dbg
extern "C" void __assert_fail(char const* e, char const* f, unsigned l, char const*) noexcept {
    rt::assert_failed(e, f, l);
}
namespace dbg {
#endif

using namespace cft;

struct SutInst {
    Instance inst;
};
struct SutObj {
    ThreePhase* tp;
    Greedy*     gr;
};

SutInst* sut_make_inst(XInst const& x) {
    SutInst* s = new SutInst();
    for (size_t j = 0; j < x.cols.size(); ++j) {
        std::vector<ridx_t> col;
        for (int i : x.cols[j])
            col.push_back(static_cast<ridx_t>(i));
        s->inst.cols.push_back(col);
        s->inst.costs.push_back(static_cast<real_t>(x.costs[j]));
    }
    fill_rows_from_cols(s->inst.cols, static_cast<ridx_t>(x.nrows), s->inst.rows);
    return s;
}
void sut_free_inst(SutInst* s) {
    delete s;
}
XInst sut_get_inst(SutInst const* s) {
    XInst x;
    x.nrows = static_cast<int>(s->inst.rows.size());
    for (size_t j = 0; j + 1 < s->inst.cols.begs.size(); ++j) {
        std::vector<int> c;
        for (size_t k = s->inst.cols.begs[j]; k < s->inst.cols.begs[j + 1]; ++k)
            c.push_back(static_cast<int>(s->inst.cols.idxs[k]));
        x.cols.push_back(c);
    }
    for (real_t c : s->inst.costs)
        x.costs.push_back(c);
    return x;
}
bool sut_inst_consistent(SutInst const* s, std::string& why) {
    auto const& in = s->inst;
    auto const& b  = in.cols.begs;
    if (b.empty() || b[0] != 0 || b.back() != in.cols.idxs.size()) {
        why = "column bounds do not span the index array";
        return false;
    }
    if (in.costs.size() != b.size() - 1) {
        why = "number of costs differs from number of columns";
        return false;
    }
    for (size_t j = 0; j + 1 < b.size(); ++j)
        if (b[j] > b[j + 1]) {
            why = "column bounds not increasing";
            return false;
        }
    std::vector<std::vector<cidx_t>> rows(in.rows.size());
    for (size_t j = 0; j + 1 < b.size(); ++j)
        for (size_t k = b[j]; k < b[j + 1]; ++k) {
            long double i = static_cast<long double>(in.cols.idxs[k]);
            if (i < 0 || i >= static_cast<long double>(in.rows.size())) {
                why = "row index out of range";
                return false;
            }
            rows[static_cast<size_t>(in.cols.idxs[k])].push_back(static_cast<cidx_t>(j));
        }
    for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<cidx_t> a = rows[i], c = in.rows[i];
        std::sort(a.begin(), a.end());
        std::sort(c.begin(), c.end());
        if (a != c) {
            why = "row lists differ from columns";
            return false;
        }
    }
    for (real_t c : in.costs)
        if (!(c >= -std::numeric_limits<real_t>::max() && c <= std::numeric_limits<real_t>::max())) {
            why = "cost not finite";
            return false;
        }
    return true;
}

namespace {
void fill_env(Environment& env, XParams const& p) {
    env.seed = p.seed;
    env.rnd  = prng_t(p.seed);
    if (p.time_limit >= 0)
        env.time_limit = p.time_limit;
    env.verbose          = p.verbose;
    env.epsilon          = static_cast<real_t>(p.eps);
    env.heur_iters       = p.heur;
    env.alpha            = static_cast<real_t>(p.alpha);
    env.beta             = static_cast<real_t>(p.beta);
    env.abs_subgrad_exit = static_cast<real_t>(p.abs_exit);
    env.rel_subgrad_exit = static_cast<real_t>(p.rel_exit);
    env.min_fixing       = static_cast<real_t>(p.min_fixing);
    env.use_unit_costs   = p.unit;
}
void to_x(Solution const& s, XSol& x) {
    x.idxs.clear();
    for (cidx_t j : s.idxs)
        x.idxs.push_back(static_cast<long long>(j));
    x.cost = s.cost;
}
Solution from_x(XSol const& x) {
    Solution s;
    for (long long j : x.idxs)
        s.idxs.push_back(static_cast<cidx_t>(j));
    s.cost = static_cast<real_t>(x.cost);
    return s;
}
struct Scope {
    Scope() { rt::enter(); }
    ~Scope() { rt::leave(); }
};
template <typename F>
XOut guarded(F f) {
    XOut o;
    char buf[512] = {0};
    // The error text is copied outside of the simulated heap.
    try {
        Scope sc;
        f();
    } catch (std::bad_alloc const&) {
        o.st = XS_BAD_ALLOC;
    } catch (std::exception const& e) {
        o.st = XS_STD_EXC;
        snprintf(buf, sizeof buf, "%s", e.what());
    } catch (...) {
        o.st = XS_OTHER_EXC;
    }
    o.what = buf;
    return o;
}
}  // namespace

XOut sut_run(SutInst const* si, XParams const& p, XSol const* warm, XRes& out) {
    Environment env;
    fill_env(env, p);
    Solution  w;
    if (warm)
        w = from_x(*warm);
    XOut o;
    {
        CftResult res;
        o = guarded([&] {
            env.timer.restart();
            res = warm ? cft::run(env, si->inst, w) : cft::run(env, si->inst);
        });
        if (o.st == XS_OK) {
            to_x(res.sol, out.sol);
            out.mults.assign(res.dual.mults.begin(), res.dual.mults.end());
            out.lb = res.dual.lb;
        }
    }
    if (warm) {
        XSol after;
        to_x(w, after);
        if (after.idxs != warm->idxs) {
            o.st   = XS_OTHER_EXC;
            o.what = "warm start modified";
        }
    }
    return o;
}
SutObj* sut_make_obj() {
    return new SutObj{new ThreePhase(), new Greedy()};
}
void sut_free_obj(SutObj* o) {
    delete o->tp;
    delete o->gr;
    delete o;
}
XOut sut_three_phase(SutObj* reuse, SutInst const* si, XParams const& p, XRes& out) {
    Environment env;
    fill_env(env, p);
    Instance inst = si->inst;
    XOut     o;
    CftResult res;
    if (reuse)
        o = guarded([&] {
            env.timer.restart();
            res = (*reuse->tp)(env, inst);
        });
    else
        o = guarded([&] {
            env.timer.restart();
            ThreePhase tp;
            res = tp(env, inst);
        });
    if (o.st == XS_OK) {
        to_x(res.sol, out.sol);
        out.mults.assign(res.dual.mults.begin(), res.dual.mults.end());
        out.lb = res.dual.lb;
    }
    return o;
}
XOut sut_greedy(SutObj* reuse, SutInst const* si, std::vector<long double> const& m,
                long double cutoff, XSol& out) {
    std::vector<real_t> mult, red;
    for (long double v : m)
        mult.push_back(static_cast<real_t>(v));
    red = si->inst.costs;
    for (size_t j = 0; j + 1 < si->inst.cols.begs.size(); ++j)
        for (size_t k = si->inst.cols.begs[j]; k < si->inst.cols.begs[j + 1]; ++k)
            red[j] -= mult[static_cast<size_t>(si->inst.cols.idxs[k])];
    Solution s;
    s.cost = 0;
    XOut o = guarded([&] {
        if (reuse) {
            if (cutoff < 0)
                s.cost = (*reuse->gr)(si->inst, mult, red, s.idxs);
            else
                s.cost = (*reuse->gr)(si->inst, mult, red, s.idxs, static_cast<real_t>(cutoff));
        } else {
            Greedy g;
            if (cutoff < 0)
                s.cost = g(si->inst, mult, red, s.idxs);
            else
                s.cost = g(si->inst, mult, red, s.idxs, static_cast<real_t>(cutoff));
        }
    });
    if (o.st == XS_OK)
        to_x(s, out);
    return o;
}

XOut sut_parse(std::string const& fmt, std::string const& path, SutInst** inst, XSol& init) {
    FileData fd;
    XOut     o = guarded([&] {
        if (fmt == "RAIL")
            fd.inst = parse_rail_instance(path);
        else if (fmt == "SCP")
            fd.inst = parse_scp_instance(path);
        else if (fmt == "CVRP")
            fd = parse_cvrp_instance(path);
        else
            fd.inst = parse_mps_instance(path);
    });
    if (o.st == XS_OK) {
        if (inst)
            *inst = new SutInst{fd.inst};
        to_x(fd.init_sol, init);
    }
    return o;
}
XOut sut_parse_validated(std::string const& fmt, std::string const& path,
                         std::string const& initsol, bool unit, SutInst** inst, XSol& init) {
    FileData fd;
    XOut     o = guarded([&] {
        Environment env;
        env.verbose        = 0;
        env.parser         = fmt;
        env.inst_path      = path;
        env.initsol_path   = initsol;
        env.use_unit_costs = unit;
        fd                 = parse_inst_and_initsol(env);
    });
    if (o.st == XS_OK) {
        if (inst)
            *inst = new SutInst{fd.inst};
        to_x(fd.init_sol, init);
    }
    return o;
}
XOut sut_parse_solution(std::string const& path, XSol& out) {
    Solution s;
    XOut     o = guarded([&] { s = parse_solution(path); });
    if (o.st == XS_OK)
        to_x(s, out);
    return o;
}
XOut sut_write_solution(std::string const& path, XSol const& sol) {
    Solution s = from_x(sol);
    return guarded([&] { write_solution(path, s); });
}
int sut_main(std::vector<std::string> const& args) {
    std::vector<char const*> av;
    for (auto const& a : args)
        av.push_back(a.c_str());
    av.push_back(nullptr);
    int  rc = -1;
    Scope sc;
    rc = accft_main(static_cast<int>(args.size()), av.data());
    return rc;
}
#ifndef SUT_DEBUG
int sut_type_bytes() {
    return static_cast<int>(sizeof(real_t) + sizeof(cidx_t) + sizeof(ridx_t));
}
long double sut_eps() {
    return std::numeric_limits<real_t>::epsilon();
}
int sut_real_digits() {
    return std::numeric_limits<real_t>::digits;
}
long long sut_max_rows() {
    long double m = static_cast<long double>(std::numeric_limits<ridx_t>::max()) - 1;
    return m > 1000000 ? 1000000 : static_cast<long long>(m);
}
long long sut_max_cols() {
    long double m = static_cast<long double>(std::numeric_limits<cidx_t>::max()) - 1;
    return m > 10000000 ? 10000000 : static_cast<long long>(m);
}
long double sut_cast(long double v) {
    return static_cast<real_t>(v);
}
long double sut_real(char const* s) {
    if (std::is_same<real_t, float>::value)
        return strtof(s, nullptr);
    if (std::is_same<real_t, double>::value)
        return strtod(s, nullptr);
    return strtold(s, nullptr);
}
#endif
char const* sut_variant() {
    return SUT_VARIANT;
}
#ifdef SUT_DEBUG
}  // namespace dbg
#endif
