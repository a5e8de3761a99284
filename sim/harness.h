// Shared by all checks: executing calls of the code under test inside the simulation.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "plan.h"
#include "rt.h"
#include "sut.h"

struct Violation {
    std::string cls, msg;
};
struct Invalid {
    std::string msg;
};
[[noreturn]] void fail(std::string const& cls, std::string const& msg);
[[noreturn]] void invalid(std::string const& msg);

struct Expiry {      // where the time limit passes
    char        kind = 'n';  // n none, s at start, t ticks (jump), q ticks (steady pace), r clock read
    uint64_t    at   = 0;
    static Expiry parse(std::string const& s, uint64_t ticks, uint64_t reads);
    std::string str() const;
};
struct Req {
    int                      inst  = 0;
    int                      par   = 0;
    XSol const*              warm  = nullptr;
    std::string              entry = "run";  // run, tp, greedy
    Expiry                   exp;
    rt::Cfg                  cfg;
    SutObj*                  obj    = nullptr;
    long double              cutoff = -1;
    std::vector<long double> mults;   // greedy
    int                      verbose = -1;
    dbg::SutObj*             dobj    = nullptr;
    bool                     keep_cfg = false;  // do not touch the simulation configuration
};
struct Res {
    XOut         o;
    XRes         r;
    rt::Counters c;
    uint64_t     alloc_live_before = 0, alloc_live_after = 0;
    std::string  str() const;
};
struct Ctx {
    Plan const&           p;
    uint64_t              h = 1469598103934665603ULL;
    uint64_t              sig = 0;
    std::vector<SutInst*> insts;
    std::vector<dbg::SutInst*> dinsts;     // made when first needed
    bool                  debug  = false;  // calls go to the build with assertions
    bool                  expand = false;  // print expanded decisions
    std::vector<std::string> expanded;
    explicit Ctx(Plan const& pl);
    ~Ctx();
    void     note(std::string const& s);
    void     note(uint64_t v);
    XInst const& inst(int k) const;
    XParams const& par(int k) const;
    Res      call(Req const& q);       // configures the simulation and runs one call
    void     check_ok(Res const& r, char const* what) const;  // fails unless the call succeeded
    void     check_result(Req const& q, Res const& r, std::string const& what) const;
    void     check_heap() const;
    void     check_insts_unchanged() const;
    std::vector<std::string> inst_snap;
};
std::string inst_str(XInst const& x);
rt::Cfg cfg_of(Op const& o);           // heap / stack / clock perturbations named in an op
void    perturb(Rng& r, Op& o, bool mild);
std::string baseline_key(Op const& o);
std::vector<long double> mults_of(XInst const& x, uint64_t seed);

void in_sim(std::function<void()> const& f);   // fresh stack

using GenFn  = void (*)(Rng&, Plan&);
using ExecFn = void (*)(Ctx&);
struct Check {
    GenFn  gen;
    ExecFn exec;
};
void register_lib(std::map<std::string, Check>& m);
void register_io(std::map<std::string, Check>& m);
