// Type-erased access to the code under test (one build per numeric type configuration).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

struct XInst {
    int                           nrows = 0;
    std::vector<std::vector<int>> cols;
    std::vector<long double>      costs;
};
struct XSol {
    std::vector<long long> idxs;
    long double            cost = 0;
};
struct XRes {
    XSol                     sol;
    std::vector<long double> mults;
    long double              lb = 0;
};
struct XParams {
    uint64_t    seed       = 0;
    double      time_limit = -1;  // seconds, <0: none
    uint64_t    verbose    = 0;
    long double eps        = 0.999L;
    uint64_t    heur       = 250;
    long double alpha      = 1.1L;
    long double beta       = 1.0L;
    long double abs_exit   = 1.0L;
    long double rel_exit   = 0.001L;
    long double min_fixing = 0.3L;
    bool        unit       = false;
};
enum XStatus { XS_OK = 0, XS_BAD_ALLOC = 1, XS_STD_EXC = 2, XS_OTHER_EXC = 3 };
struct XOut {
    XStatus     st = XS_OK;
    std::string what;
};

// Calls of the code under test. `reuse` (may be null) is a function object kept between calls;
// mults: one per row; cutoff<0: default. fmt: RAIL SCP CVRP MPS; sut_get_inst: costs after conversion
// to real_t; sut_parse_validated: through parse_inst_and_initsol; sut_main: returns the exit status.
#define SUT_API(W) \
    struct SutInst; \
    struct SutObj; \
    W SutInst* sut_make_inst(XInst const& x); \
    W void     sut_free_inst(SutInst*); \
    W XInst    sut_get_inst(SutInst const*); \
    W bool     sut_inst_consistent(SutInst const*, std::string& why); \
    W void     sut_env_prepare(XParams const& p); \
    W XOut sut_run(SutInst const*, XParams const&, XSol const* warm, XRes& out); \
    W SutObj* sut_make_obj(); \
    W void    sut_free_obj(SutObj*); \
    W XOut sut_three_phase(SutObj* reuse, SutInst const*, XParams const&, XRes& out); \
    W XOut sut_greedy(SutObj* reuse, SutInst const*, std::vector<long double> const& mults, \
                    long double cutoff, XSol& out); \
    W XOut sut_parse(std::string const& fmt, std::string const& path, SutInst** inst, XSol& init); \
    W XOut sut_parse_validated(std::string const& fmt, std::string const& path, \
                             std::string const& initsol, bool unit, SutInst** inst, XSol& init); \
    W XOut sut_parse_solution(std::string const& path, XSol& out); \
    W XOut sut_write_solution(std::string const& path, XSol const& sol); \
    W int  sut_main(std::vector<std::string> const& args);

int         sut_type_bytes();     // of a cost, a column index and a row index together
long double sut_eps();          // machine epsilon of real_t
int         sut_real_digits();
long long   sut_max_rows();
long long   sut_max_cols();
long double sut_cast(long double v);  // round to real_t
long double sut_real(char const* s);  // the real_t nearest to the number in the text
char const* sut_variant();

SUT_API()
// The same, built with assertions (only in the variants that end in d).
namespace dbg {
SUT_API(__attribute__((weak)))
__attribute__((weak)) char const* sut_variant();
}  // namespace dbg
