// The C++ library behind a C interface, loaded next to the Python bindings as their reference.
#include <stdint.h>
#include <string.h>

#include "rt.h"
#include "sut.h"

namespace rt {  // the step counter and the clock live in the preloaded shim
void enter() {}
void leave() {}
Pause::Pause() : d(0) {}
Pause::~Pause() {}
}  // namespace rt

static std::string g_err;
static XRes        g_res;

extern "C" {
struct RefPar {
    uint64_t seed;
    double   limit;  // <0: none
    uint64_t heur;
    double   eps, alpha, beta, abs_exit, rel_exit, min_fixing;
    int      unit;
};
char const* ref_error() {
    return g_err.c_str();
}
// fmt: "" for the instance given by arrays, otherwise read from path.
static SutInst* make(bool unit, char const* fmt, char const* path, int n, int m, int const* begs, int const* idxs, double const* costs, XSol& init) {
    SutInst* si = nullptr;
    if (*fmt) {
        XOut o = sut_parse_validated(fmt, path, "", unit, &si, init);
        if (o.st != XS_OK) {
            g_err = o.what;
            return nullptr;
        }
        return si;
    }
    XInst x;
    x.nrows = n;
    for (int j = 0; j < m; ++j) {
        x.cols.emplace_back(idxs + begs[j], idxs + begs[j + 1]);
        x.costs.push_back(costs[j]);
    }
    return sut_make_inst(x);
}
// Returns the number of columns in the solution, -1 on error.
int ref_run(char const* fmt, char const* path, int n, int m, int const* begs, int const* idxs, double const* costs, RefPar const* p,
            int nwarm, int const* warm, double wcost) {
    XSol     init;
    SutInst* si = make(p->unit != 0, fmt, path, n, m, begs, idxs, costs, init);
    if (!si)
        return -1;
    XParams P;
    P.seed       = p->seed;
    P.time_limit = p->limit;
    P.heur       = p->heur;
    P.eps        = p->eps;
    P.alpha      = p->alpha;
    P.beta       = p->beta;
    P.abs_exit   = p->abs_exit;
    P.rel_exit   = p->rel_exit;
    P.min_fixing = p->min_fixing;
    P.unit       = p->unit != 0;
    if (nwarm > 0) {
        init.idxs.assign(warm, warm + nwarm);
        init.cost = wcost;
    }
    g_res  = XRes();
    XOut o = sut_run(si, P, init.idxs.empty() ? nullptr : &init, g_res);
    sut_free_inst(si);
    if (o.st != XS_OK) {
        g_err = o.what;
        return -1;
    }
    return static_cast<int>(g_res.sol.idxs.size());
}
void ref_get(int* idxs, double* cost, double* lb, double* mults, int* nmults) {
    for (size_t k = 0; k < g_res.sol.idxs.size(); ++k)
        idxs[k] = static_cast<int>(g_res.sol.idxs[k]);
    *cost   = static_cast<double>(g_res.sol.cost);
    *lb     = static_cast<double>(g_res.lb);
    *nmults = static_cast<int>(g_res.mults.size());
    if (mults)
        for (size_t k = 0; k < g_res.mults.size(); ++k)
            mults[k] = static_cast<double>(g_res.mults[k]);
}
// What a file says according to the library: rows, columns; then the arrays.
static XInst g_inst;
static XSol  g_init;
int ref_parse(char const* fmt, char const* path, int* n, int* m, int* nnz, int* ninit) {
    g_init       = XSol();
    SutInst* si = make(false, fmt, path, 0, 0, nullptr, nullptr, nullptr, g_init);
    if (!si)
        return -1;
    g_inst = sut_get_inst(si);
    sut_free_inst(si);
    *n   = g_inst.nrows;
    *m   = static_cast<int>(g_inst.cols.size());
    *nnz = 0;
    for (auto const& c : g_inst.cols)
        *nnz += static_cast<int>(c.size());
    *ninit = static_cast<int>(g_init.idxs.size());
    return 0;
}
void ref_parse_get(int* begs, int* idxs, double* costs, int* init, double* icost) {
    int k = 0, j = 0;
    for (auto const& c : g_inst.cols) {
        begs[j]  = k;
        costs[j] = static_cast<double>(g_inst.costs[static_cast<size_t>(j)]);
        ++j;
        for (int i : c)
            idxs[k++] = i;
    }
    begs[j] = k;
    for (size_t q = 0; q < g_init.idxs.size(); ++q)
        init[q] = static_cast<int>(g_init.idxs[q]);
    *icost = static_cast<double>(g_init.cost);
}
}
