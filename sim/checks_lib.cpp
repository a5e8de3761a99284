#include <algorithm>
#include <sstream>

#include "harness.h"

using std::string;

// ------------------------------------------------------------------------------- helpers
static string rand_exp(Rng& r) {
    uint64_t z = r.below(100);
    if (z < 6)
        return "s";
    if (z < 10)
        return "s:1";
    if (z < 35)
        return strf("t%%%llu", static_cast<unsigned long long>(r.below(1000000)));
    if (z < 45)
        return strf("q%%%llu", static_cast<unsigned long long>(1 + r.below(999999)));
    if (z < 75)
        return strf("r%%%llu", static_cast<unsigned long long>(r.below(1000000)));
    if (z < 90)
        return strf("r:%llu", static_cast<unsigned long long>(2 + r.below(24)));
    return strf("r-%llu", static_cast<unsigned long long>(r.below(8)));
}
static string rand_exp_reads(Rng& r) {
    string x = rand_exp(r);
    while (x[0] != 'r' && x[0] != 's')
        x = rand_exp(r);
    return x == "s:1" ? "s" : x;
}
struct Lib {
    Ctx&                        c;
    std::map<string, Res>       base;
    std::map<string, XSol>      results;
    XSol                        tmp;
    explicit Lib(Ctx& cc) : c(cc) {}
    // Builds the request of an op, without expiry.
    Req req(Op const& o) {
        Req q;
        q.inst  = static_cast<int>(o.i("i", 0));
        q.par   = static_cast<int>(o.i("p", 0));
        q.entry = o.str("e", "run");
        if (o.str("w") == "1" && q.entry == "run") {
            auto const& pi = c.p.insts[static_cast<size_t>(q.inst) % c.p.insts.size()];
            if (pi.has_warm)
                q.warm = &pi.warm;
        }
        if (q.entry == "greedy") {
            q.mults = mults_of(c.inst(q.inst), o.u("m", 0));
            if (o.has("cut"))
                q.cutoff = o.f("cut");
        }
        return q;
    }
    Res const& baseline(Op const& o) {
        string k = o.str("i", "0") + "/" + o.str("p", "0") + "/" + o.str("e", "run") + "/" + o.str("w", "0") + "/" +
                   o.str("m") + "/" + o.str("cut");
        auto it = base.find(k);
        if (it != base.end())
            return it->second;
        Req q = req(o);
        return base[k] = c.call(q);
    }
    Req full(Op const& o) {
        Req q = req(o);
        q.cfg = cfg_of(o);
        string x = o.str("x", "none");
        if (x != "none") {
            bool       rel = x.size() > 2 && x[1] != ':';
            Res const& b   = rel ? baseline(o) : dummy;
            q.exp        = Expiry::parse(x, b.c.ticks, b.c.clock_reads);
        }
        return q;
    }
    Res dummy;
};
static string opname(Op const& o) {
    string s = o.name;
    for (auto const& k : o.kv)
        s += " " + k.first + "=" + k.second;
    return s;
}

// --------------------------------------------------------------------------------- C01
static void gen_C01(Rng& r, Plan& p) {
    GenLim l;
    l.huge_p = 0.02;
    p.insts.push_back(gen_inst(r, l));
    p.params.push_back(gen_params(r, p.insts[0].x));
    int n = static_cast<int>(r.in(3, 10));
    for (int k = 0; k < n; ++k) {
        Op       o;
        uint64_t z = r.below(20);
        o.name     = "call";
        o.set("e", z < 12 ? "run" : z < 17 ? "tp" : "greedy");
        if (o.str("e") == "run" && r.chance(0.35))
            o.set("w", 1);
        if (o.str("e") == "greedy") {
            o.set("m", r.below(64));
            if (r.chance(0.5))
                o.setf("cut", sut_cast(exact_cost(p.insts[0].x, p.insts[0].warm.idxs) * static_cast<long double>(0.5 + r.real())));
        } else if (k > 0)
            o.set("x", rand_exp(r));
        if (r.chance(0.2))
            perturb(r, o, true);
        p.ops.push_back(o);
    }
}
static void exec_C01(Ctx& c) {
    Lib l(c);
    for (auto const& o : c.p.ops) {
        Req q = l.full(o);
        Res r = c.call(q);
        c.check_result(q, r, opname(o));
        if (r.c.first_expire_tick || (q.exp.kind == 'q' && r.c.ticks > q.exp.at) || q.exp.kind == 's')
            rt::sh->nontrivial += 1;
    }
    c.check_insts_unchanged();
}

// --------------------------------------------------------------------------------- C02
static void gen_C02(Rng& r, Plan& p) {
    GenLim l;
    l.min_rows = 4;
    l.max_rows = 120;
    p.insts.push_back(gen_inst(r, l));
    XParams x = gen_params(r, p.insts[0].x);
    // Make every loop of the search long, so that a missing or ineffective limit shows.
    if (r.chance(0.8)) {
        x.heur = r.pick<uint64_t>({2000, 20000, 200000});
        x.eps  = r.pick({1e-3L, 0.1L, 0.0L});
    }
    if (r.chance(0.6)) {
        x.abs_exit = 0;
        x.rel_exit = 0;
    }
    if (r.chance(0.6)) {
        x.beta  = 0;
        x.alpha = r.pick({1.002L, 1.01L, 1.1L});
    }
    p.params.push_back(x);
    int n = static_cast<int>(r.in(2, 6));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "call";
        o.set("e", r.chance(0.7) ? "run" : "tp");
        if (o.str("e") == "run" && r.chance(0.25))
            o.set("w", 1);
        // absolute instants: the undisturbed run may be very long
        uint64_t z = r.below(10);
        if (z < 1)
            o.set("x", "s");
        else if (z < 2)
            o.set("x", "s:1");
        else if (z < 6)
            o.set("x", strf("t:%llu", static_cast<unsigned long long>(std::pow(10.0, 2 + 5 * r.real()))));
        else if (z < 8)
            o.set("x", strf("q:%llu", static_cast<unsigned long long>(std::pow(10.0, 3 + 4 * r.real()))));
        else
            o.set("x", strf("r:%llu", static_cast<unsigned long long>(2 + r.below(200))));
        if (r.chance(0.25))  // somebody sets the wall clock
            o.set("wall_at", r.below(4000)).set("wall", r.pick<long long>({-1000000000LL * 1000000000LL, -3600LL * 1000000000LL}));
        p.ops.push_back(o);
    }
}
static void exec_C02(Ctx& c) {
    Lib                       l(c);
    std::map<string, uint64_t> t0s;
    for (auto const& o : c.p.ops) {
        string k = o.str("e") + o.str("w");
        if (!t0s.count(k)) {
            // What the same call needs when its limit has already expired at the start.
            Req q         = l.req(o);
            q.exp.kind    = 's';
            q.cfg.max_ticks = 3000000000ULL;
            Res r         = c.call(q);
            c.check_result(q, r, opname(o) + " (expired at start)");
            t0s[k] = r.c.ticks;
            XInst const& x  = c.inst(q.inst);
            size_t       sz = static_cast<size_t>(x.nrows) + x.cols.size() + 20;
            for (auto const& v : x.cols)
                sz += v.size();
            // Measured: at most 173 steps per unit of size.
            uint64_t lim0 = 700 * static_cast<uint64_t>(sz) + 20000;
            rt::sh->probes[22] = std::max(rt::sh->probes[22], 1000 * r.c.ticks / lim0);
            if (r.c.ticks > lim0)
                fail("late-start", strf("%s: a call whose limit had already expired ran %llu steps, allowed %llu", opname(o).c_str(),
                                        static_cast<unsigned long long>(r.c.ticks), static_cast<unsigned long long>(lim0)));
        }
        uint64_t T0 = t0s[k];
        Req      q  = l.full(o);
        XInst const& x = c.inst(q.inst);
        long double  fac = 6.0L * (1.0L + static_cast<long double>(x.nrows) / 30.0L);
        uint64_t     lim = static_cast<uint64_t>(static_cast<long double>(T0) * fac) + 3000;
        // expiry instant in ticks
        uint64_t at = 0;
        if (q.exp.kind == 't' || q.exp.kind == 'q')
            at = q.exp.at;
        q.cfg.max_ticks = 4000000000ULL;
        Res r           = c.call(q);
        c.check_result(q, r, opname(o));
        if (q.exp.kind == 'r')
            at = r.c.first_expire_tick ? r.c.first_expire_tick : ~0ULL;
        uint64_t over = r.c.ticks > at ? r.c.ticks - at : 0;
        if (over) {
            rt::probe(2);
            uint64_t pm = static_cast<uint64_t>(1000.0L * static_cast<long double>(over) / static_cast<long double>(lim));
            rt::sh->probes[20] = std::max(rt::sh->probes[20], pm);
            rt::sh->nontrivial += 1;
        }
        if (over > lim)
            fail("late", strf("%s: ran %llu steps after its time limit had expired; an already expired call needs %llu steps, allowed %llu",
                              opname(o).c_str(), static_cast<unsigned long long>(over),
                              static_cast<unsigned long long>(T0), static_cast<unsigned long long>(lim)));
    }
}

// --------------------------------------------------------------------------------- C03
static void gen_C03(Rng& r, Plan& p) {
    GenLim l;
    l.huge_p = 0.01;
    p.insts.push_back(gen_inst(r, l));
    p.params.push_back(gen_params(r, p.insts[0].x));
    bool other = r.chance(0.4);
    if (other) {
        GenLim s;
        s.max_rows = 40;
        p.insts.push_back(gen_inst(r, s));
        p.params.push_back(gen_params(r, p.insts[1].x));
    }
    bool warm = r.chance(0.3);
    int  n    = static_cast<int>(r.in(2, 6));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "again";
        o.set("e", r.chance(0.7) ? "run" : r.chance(0.7) ? "tp" : "greedy");
        if (o.str("e") == "greedy")
            o.set("m", r.below(64));
        if (warm && o.str("e") == "run")
            o.set("w", 1);
        perturb(r, o, false);
        if (r.chance(0.35))
            o.set("v", r.in(1, 5));
        if (r.chance(0.4))
            o.set("limit", 1);  // a limit that is not reached
        p.ops.push_back(o);
        if (other && r.chance(0.5)) {
            Op q;
            q.name = "other";
            q.set("i", 1).set("p", 1);
            if (r.chance(0.5))
                q.set("x", rand_exp(r));
            p.ops.push_back(q);
        }
    }
}
static void exec_C03(Ctx& c) {
    Lib l(c);
    for (auto const& o : c.p.ops) {
        if (o.name == "other") {
            if (c.p.insts.size() < 2)
                continue;
            Req q = l.full(o);
            c.call(q);
            continue;
        }
        Res const& b = l.baseline(o);
        c.check_ok(b, "undisturbed run");
        Req q = l.req(o);
        q.cfg = cfg_of(o);
        if (o.has("v"))
            q.verbose = static_cast<int>(o.i("v"));
        XParams sv = c.par(q.par);
        if (o.has("limit") && !o.has("jump_at")) {
            // generous limit, which only jumps of the wall clock exceed (at most 50 ms per step)
            const_cast<XParams&>(c.par(q.par)).time_limit = 2e9;
        }
        Res r = c.call(q);
        const_cast<XParams&>(c.par(q.par)) = sv;
        rt::sh->nontrivial += !o.kv.empty();
        if (r.str() != b.str())
            fail("differs", opname(o) + ": result differs from the undisturbed run:\n  " + b.str().substr(0, 500) + "\n  " +
                                r.str().substr(0, 500));
    }
}

// --------------------------------------------------------------------------------- C04
static void gen_C04(Rng& r, Plan& p) {
    GenLim l;
    l.huge_p = 0.01;
    l.min_rows = 3;
    p.insts.push_back(gen_inst(r, l));
    p.params.push_back(gen_params(r, p.insts[0].x));
    if (r.chance(0.4)) {
        p.params[0].eps  = 0.001L;
        p.params[0].beta = r.pick({0.0L, 0.9L, 1.0L});
    }
    bool warm = r.chance(0.4);
    string e  = warm || r.chance(0.75) ? "run" : "tp";
    int  n    = static_cast<int>(r.in(3, 12));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "call";
        o.set("e", e);
        if (warm)
            o.set("w", 1);
        o.set("x", r.chance(0.3) ? strf("r%%%llu", static_cast<unsigned long long>(r.below(1000000))) : rand_exp(r));
        if (o.str("x")[0] == 's' && r.chance(0.8))
            o.set("x", strf("r:%llu", static_cast<unsigned long long>(2 + r.below(60))));
        p.ops.push_back(o);
        if (r.chance(0.25)) {
            Op q;
            q.name = "chain";  // warm start from the previous result
            q.set("x", rand_exp(r));
            q.set("seed", r.below(1000));
            p.ops.push_back(q);
        }
    }
}
static void exec_C04(Ctx& c) {
    Lib l(c);
    struct Pt {
        uint64_t    at;
        bool        reads;
        long double cost;
        string      what;
    };
    std::vector<Pt> pts;
    XSol            last;
    bool            have_last = false;
    for (auto const& o : c.p.ops) {
        if (o.name == "chain") {
            if (!have_last)
                continue;
            Req q  = l.req(o);
            XSol w = last;
            q.warm = &w;
            Res b;
            string x = o.str("x");
            if (x != "none" && x[0] != 's')
                b = c.call(q);
            else
                b.c.ticks = 0;
            q.exp = Expiry::parse(x, b.c.ticks, b.c.clock_reads);
            Res r = c.call(q);
            c.check_result(q, r, opname(o));
            if (r.r.sol.cost > w.cost)
                fail("warm-worsened", strf("%s: warm start of cost %.12Lg returned as %.12Lg", opname(o).c_str(), w.cost, r.r.sol.cost));
            last = r.r.sol;
            continue;
        }
        Res const& b = l.baseline(o);
        c.check_ok(b, "unlimited run");
        Req q = l.full(o);
        Res r = c.call(q);
        c.check_result(q, r, opname(o));
        if (q.warm && r.r.sol.cost > q.warm->cost)
            fail("warm-worsened", strf("%s: warm start of cost %.12Lg returned as %.12Lg", opname(o).c_str(), q.warm->cost, r.r.sol.cost));
        if (r.r.sol.cost < b.r.sol.cost)
            fail("later-worse", strf("%s: cost %.12Lg with a limit, %.12Lg without", opname(o).c_str(), r.r.sol.cost, b.r.sol.cost));
        if (r.r.sol.cost > b.r.sol.cost)
            rt::sh->nontrivial += 1;
        bool rd = q.exp.kind == 'r';
        if (q.exp.kind == 't' || rd) {
            for (auto const& t : pts) {
                if (t.reads != rd)
                    continue;
                if ((t.at <= q.exp.at && r.r.sol.cost > t.cost) || (t.at >= q.exp.at && r.r.sol.cost < t.cost))
                    fail("later-worse", strf("limit at %s:%llu gives cost %.12Lg, limit at %llu gives %.12Lg", rd ? "read" : "step",
                                             static_cast<unsigned long long>(q.exp.at), r.r.sol.cost,
                                             static_cast<unsigned long long>(t.at), t.cost));
            }
            pts.push_back(Pt{q.exp.at, rd, r.r.sol.cost, opname(o)});
        }
        last      = r.r.sol;
        have_last = true;
    }
}

// --------------------------------------------------------------------------------- C05
static void gen_C05(Rng& r, Plan& p) {
    GenLim l;
    l.huge_p = 0.01;
    l.tiny = r.chance(0.7);
    p.insts.push_back(gen_inst(r, l));
    XParams x = gen_params(r, p.insts[0].x);
    p.params.push_back(x);
    bool warm = r.chance(0.3);
    int  n    = static_cast<int>(r.in(3, 9));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "call";
        o.set("e", r.chance(0.7) ? "run" : "tp");
        if (warm && o.str("e") == "run")
            o.set("w", 1);
        if (k > 0)
            o.set("x", rand_exp(r));
        p.ops.push_back(o);
    }
}
static void exec_C05(Ctx& c) {
    Lib          l(c);
    XInst const& x   = c.inst(0);
    bool         dp  = x.nrows <= 16;
    long double  opt = dp ? optimum(x) : -1;
    if (c.p.insts[0].has_warm && opt < 0)
        opt = exact_cost(x, c.p.insts[0].warm.idxs);
    struct L {
        long double lb;
        string      what;
    };
    std::vector<L> lbs;
    long double    tot = 0;
    for (auto v : x.costs)
        tot += v;
    for (auto const& o : c.p.ops) {
        Req q = l.full(o);
        Res r = c.call(q);
        c.check_result(q, r, opname(o));
        long double ec = exact_cost(x, r.r.sol.idxs);
        if (opt < 0 || (!dp && ec < opt))
            opt = ec;
        if (dp && ec < opt - 1e-9L * (1 + opt))
            invalid("reference optimum is wrong");
        if (!(r.r.lb <= r.r.lb) || r.r.lb > 1e30L)
            fail("bound-not-a-number", strf("%s: lower bound %Lg", opname(o).c_str(), r.r.lb));
        lbs.push_back(L{r.r.lb, opname(o)});
        if (r.r.lb > 0)
            rt::sh->nontrivial += 1;
        if (r.r.lb > -1e30L)
            rt::probe(3);
        if (static_cast<int>(r.r.mults.size()) != x.nrows)
            fail("multipliers-size", strf("%s: %zu multipliers for %d rows", opname(o).c_str(), r.r.mults.size(), x.nrows));
        for (size_t i = 0; i < r.r.mults.size(); ++i) {
            long double m = r.r.mults[i];
            if (!(m >= 0) || m > 1e30L)
                fail("multiplier-invalid", strf("%s: multiplier %zu is %Lg", opname(o).c_str(), i, m));
        }
        if (r.r.lb > -1e30L) {
            // magnitude of the terms added up in the bound
            long double mag = tot;
            for (auto m : r.r.mults)
                mag += m;
            (void)mag;
        }
        long double terms = static_cast<long double>(x.nrows) + static_cast<long double>(x.cols.size());
        long double tol   = sut_eps() * 4 * terms * (tot + opt + 1);
        for (auto const& b : lbs)
            if (b.lb > opt + tol)
                fail("bound-above-optimum", strf("%s: lower bound %.12Lg, but a cover of cost %.12Lg exists (tolerance %Lg)",
                                                 b.what.c_str(), b.lb, opt, tol));
    }
}

// --------------------------------------------------------------------------------- C06
static void gen_C06(Rng& r, Plan& p) {
    int ni = static_cast<int>(r.in(1, 3));
    for (int k = 0; k < ni; ++k) {
        GenLim l;
        l.max_rows = 50;
        l.big_p    = 0.02;
        p.insts.push_back(gen_inst(r, l));
        XParams x = gen_params(r, p.insts.back().x);
        x.heur    = std::min<uint64_t>(x.heur, 60);
        if (x.alpha < 1.1L)
            x.alpha = 1.1L;
        p.params.push_back(x);
    }
    int nt = static_cast<int>(r.in(2, 4));
    for (int t = 0; t < nt; ++t) {
        Op o;
        o.name = "thread";
        int i  = static_cast<int>(r.below(static_cast<uint64_t>(ni)));
        o.set("i", i).set("p", i);
        uint64_t z = r.below(10);
        o.set("e", z < 6 ? "run" : z < 8 ? "tp" : "greedy");
        if (o.str("e") == "greedy")
            o.set("m", r.below(64));
        if (o.str("e") == "run" && r.chance(0.3))
            o.set("w", 1);
        if (r.chance(0.3))
            o.set("n", r.in(2, 3));
        p.ops.push_back(o);
    }
    Op s;
    s.name = "sched";
    s.set("seed", r.next() >> 8);
    s.set("gap", static_cast<uint64_t>(std::pow(10.0, 1.5 + 4 * r.real())));
    s.set("max", r.pick<uint64_t>({3, 10, 50, 400, 2000}));
    p.ops.push_back(s);
}
static void exec_C06(Ctx& c) {
    Lib l(c);
    struct T {
        Ctx*             c;
        Req              q;
        int              n;
        std::vector<Res> rs;
        string           want, what;
    };
    std::vector<T> ts;
    Op             sched;
    for (auto const& o : c.p.ops) {
        if (o.name == "sched") {
            sched = o;
            continue;
        }
        Res const& b = l.baseline(o);
        c.check_ok(b, "run alone");
        T t;
        t.c          = &c;
        t.q          = l.req(o);
        t.q.keep_cfg = true;
        t.n          = static_cast<int>(o.i("n", 1));
        t.want       = b.str();
        t.what       = opname(o);
        ts.push_back(t);
    }
    if (ts.size() < 2)
        return;
    std::vector<uint64_t> ex;
    bool                  use_ex = sched.has("trace");
    if (use_ex) {
        std::istringstream is(sched.str("trace"));
        string             w;
        while (std::getline(is, w, ','))
            ex.push_back(strtoull(w.c_str(), nullptr, 10));
    }
    rt::Cfg cfg;
    cfg.max_ticks = 4000000000ULL;
    rt::cfg_set(cfg);
    std::vector<rt::ThreadFn> fns;
    for (auto& t : ts)
        fns.push_back(rt::ThreadFn{[](void* a) {
                                       T* x = static_cast<T*>(a);
                                       for (int k = 0; k < x->n; ++k)
                                           x->rs.push_back(x->c->call(x->q));
                                   },
                                   &t});
    uint64_t hash = 0, nsw = 0;
    rt::run_threads(fns, sched.u("seed", 1), sched.u("gap", 1000), sched.u("max", 100), use_ex ? &ex : nullptr, &hash, &nsw);
    rt::Counters cc = rt::counters();
    c.note(hash);
    c.note(nsw);
    c.note(cc.ticks);
    c.sig = rt::mix(c.sig, hash);
    rt::sh->nontrivial += nsw > 1;
    if (c.expand) {
        string tr;
        for (auto v : rt::sched_trace_vec())
            tr += (tr.empty() ? "" : ",") + std::to_string(v);
        c.expanded.push_back("sched trace=" + tr);
    }
    c.check_heap();
    for (auto& t : ts)
        for (auto& r : t.rs) {
            c.note(r.str());
            if (r.str() != t.want)
                fail("interference", t.what + ": result differs from the run alone:\n  " + t.want.substr(0, 500) + "\n  " +
                                         r.str().substr(0, 500));
        }
    c.check_insts_unchanged();
}

// --------------------------------------------------------------------------------- C07
static void gen_C07(Rng& r, Plan& p) {
    int ni = static_cast<int>(r.in(1, 4));
    for (int k = 0; k < ni; ++k) {
        GenLim l;
        l.max_rows = 100;
        l.big_p    = 0.08;
        p.insts.push_back(gen_inst(r, l));
        p.params.push_back(gen_params(r, p.insts.back().x));
    }
    int    n = static_cast<int>(r.in(2, 7));
    string e = r.chance(0.6) ? "tp" : "greedy";
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "call";
        if (r.chance(0.1))
            e = e == "tp" ? "greedy" : "tp";
        o.set("e", e);
        int i = static_cast<int>(r.below(static_cast<uint64_t>(ni)));
        o.set("i", i).set("p", static_cast<int>(r.below(static_cast<uint64_t>(ni))));
        if (e == "greedy") {
            o.set("m", r.below(64));
            if (r.chance(0.5))
                o.setf("cut", sut_cast(p.insts[static_cast<size_t>(i)].warm.cost * static_cast<long double>(0.4 + r.real())));
        } else if (r.chance(0.4))
            // counted in clock readings: step counts legitimately differ between fresh and reused objects
            o.set("x", rand_exp_reads(r));
        if (r.chance(0.4))
            o.set("abort", r.below(1000000));  // allocation failure at this fraction
        p.ops.push_back(o);
    }
    p.ops.back().kv.erase("abort");
}
static void exec_C07(Ctx& c) {
    Lib     l(c);
    SutObj* obj = sut_make_obj();
    struct G {
        SutObj* o;
        ~G() { sut_free_obj(o); }
    } g{obj};
    int n = 0;
    for (auto const& o : c.p.ops) {
        Req q = l.full(o);
        if (o.has("abort")) {
            Res const& b = l.baseline(o);
            uint64_t   k = static_cast<uint64_t>(static_cast<long double>(b.c.allocs) * o.f("abort") / 1e6L) + 1;
            Req        a = q;
            a.obj        = obj;
            a.cfg.alloc_fail_at = k;
            Res r               = c.call(a);
            if (r.o.st == XS_OK)
                rt::probe(4);
            ++n;
            continue;
        }
        Res want = c.call(q);
        q.obj    = obj;
        Res got  = c.call(q);
        c.check_result(q, got, opname(o));
        if (n)
            rt::sh->nontrivial += 1;
        ++n;
        if (want.str() != got.str())
            fail("stale-state", strf("%s (call %d on the object): differs from a fresh object:\n  %s\n  %s", opname(o).c_str(), n,
                                     want.str().substr(0, 500).c_str(), got.str().substr(0, 500).c_str()));
    }
}

// --------------------------------------------------------------------------------- C14
static void gen_C14(Rng& r, Plan& p) {
    GenLim l;
    l.huge_p = 0.01;
    l.max_rows = 80;
    l.big_p    = 0.05;
    p.insts.push_back(gen_inst(r, l));
    XParams x = gen_params(r, p.insts[0].x);
    if (r.chance(0.5)) {
        x.beta = 0;  // never stop on the bound
        x.eps  = r.pick({0.0L, 1e-3L, 0.999L});
    }
    if (r.chance(0.3)) {
        x.abs_exit = 0;
        x.rel_exit = 0;
    }
    p.params.push_back(x);
    int n = static_cast<int>(r.in(1, 4));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "call";
        o.set("e", r.chance(0.8) ? "run" : "tp");
        if (o.str("e") == "run" && r.chance(0.25))
            o.set("w", 1);
        uint64_t z = r.below(6);
        o.set("clock", z == 0 ? "none" : z == 1 ? "frozen" : z == 2 ? "crawl" : z == 3 ? "stall" : z == 4 ? "brink" : "jumpfreeze");
        o.set("at", r.below(1000000));
        p.ops.push_back(o);
    }
}
static void exec_C14(Ctx& c) {
    Lib l(c);
    using rt::ClockEv;
    for (auto const& o : c.p.ops) {
        Req          q  = l.req(o);
        XInst const& x  = c.inst(q.inst);
        XParams      sv = c.par(q.par);
        XParams&     P  = const_cast<XParams&>(c.par(q.par));
        size_t       nnz = 0;
        for (auto const& v : x.cols)
            nnz += v.size();
        long double its = std::log(std::max(2.0L, 2 / std::max(sv.min_fixing, 1e-3L))) / std::log(sv.alpha) + 2;
        // Work allowed: refinement rounds x (subgradient steps + greedy steps) x instance size,
        // times a large factor. Measured use stays far below (see probe 21).
        long double per  = (10.0L * x.nrows * x.nrows + static_cast<long double>(sv.heur) * x.nrows) * (static_cast<long double>(nnz) + 10.0L * x.nrows + 50);
        long double lim  = 50 * its * per + 1e7L;
        q.cfg.max_ticks  = lim > 6e9L ? 6000000000ULL : static_cast<uint64_t>(lim);
        string   m       = o.str("clock", "none");
        uint64_t at      = o.u("at");
        if (m == "frozen") {
            P.time_limit  = 1;
            q.cfg.rate_ns = 0;
            rt::fired(rt::K_CLOCK_STALL);
        } else if (m == "crawl") {
            P.time_limit  = 1000;
            q.cfg.rate_ns = 1;
            rt::fired(rt::K_CLOCK_RATE);
        } else if (m == "stall") {
            P.time_limit  = 10;
            q.cfg.rate_ns = 10;
            q.cfg.clock_evs.push_back(ClockEv{0, at, 1, 0, rt::K_CLOCK_STALL});
        } else if (m == "brink") {  // jump to just before the limit, then freeze
            P.time_limit  = 10;
            q.cfg.rate_ns = 0;
            q.cfg.clock_evs.push_back(ClockEv{0, at, 0, 9999999999LL, rt::K_CLOCK_JUMP});
            q.cfg.clock_evs.push_back(ClockEv{0, at, 1, 0, rt::K_CLOCK_STALL});
        } else if (m == "jumpfreeze") {  // exactly at the limit, then frozen
            P.time_limit  = 10;
            q.cfg.rate_ns = 0;
            q.cfg.clock_evs.push_back(ClockEv{0, at, 0, 10000000000LL, rt::K_CLOCK_JUMP});
        }
        Res r = c.call(q);
        P     = sv;
        c.check_result(q, r, opname(o));
        uint64_t pm        = 1000000 * r.c.ticks / q.cfg.max_ticks;
        rt::sh->probes[21] = std::max(rt::sh->probes[21], pm);
        rt::sh->nontrivial += r.c.ticks > 1000000;
    }
}

// --------------------------------------------------------------------------------- C08 (library part; files and program in checks_io.cpp)
void gen_C08_io(Rng& r, Plan& p);
void exec_C08_io(Ctx& c, Op const& o);
static void gen_C08(Rng& r, Plan& p) {
    if (r.chance(0.4)) {
        gen_C08_io(r, p);
        return;
    }
    GenLim l;
    l.max_rows = 80;
    l.big_p    = 0.05;
    p.insts.push_back(gen_inst(r, l));
    p.params.push_back(gen_params(r, p.insts[0].x));
    int n = static_cast<int>(r.in(3, 10));
    for (int k = 0; k < n; ++k) {
        Op       o;
        uint64_t z = r.below(10);
        o.name     = "fail";
        o.set("e", z < 6 ? "run" : z < 9 ? "tp" : "greedy");
        if (o.str("e") == "greedy")
            o.set("m", r.below(64));
        if (o.str("e") == "run" && r.chance(0.3))
            o.set("w", 1);
        uint64_t y = r.below(10);
        if (y < 3)
            o.set("k", strf("a:%llu", static_cast<unsigned long long>(1 + r.below(60))));
        else if (y < 8)
            o.set("k", strf("a%%%llu", static_cast<unsigned long long>(r.below(1000000))));
        else
            o.set("cap", r.below(1000000));
        if (r.chance(0.4))
            o.set("sticky", 1);
        p.ops.push_back(o);
    }
}
static void exec_C08(Ctx& c) {
    Lib                       l(c);
    for (auto const& o : c.p.ops) {
        if (o.name != "fail") {
            exec_C08_io(c, o);
            continue;
        }
        Res const& b = l.baseline(o);
        c.check_ok(b, "undisturbed run");
        Req q = l.req(o);
        if (o.has("cap")) {
            q.cfg.mem_cap = static_cast<uint64_t>(64 + static_cast<long double>(b.c.peak_bytes) * o.f("cap") / 1e6L) + b.c.base_bytes;
        } else {
            Expiry e            = Expiry::parse(o.str("k", "a:1"), b.c.allocs, 0);
            q.cfg.alloc_fail_at = e.at;
            q.cfg.alloc_sticky  = o.has("sticky");
        }
        uint64_t before = rt::live_count();
        Res      r      = c.call(q);
        uint64_t after  = rt::live_count();
        if (r.o.st == XS_OK) {
            if (r.str() != b.str())
                fail("wrong-result", opname(o) + ": returned without an error but with another result:\n  " + b.str().substr(0, 400) +
                                         "\n  " + r.str().substr(0, 400));
            if (r.c.alloc_failed)
                rt::probe(5);
        } else {
            rt::sh->nontrivial += 1;
            if (r.o.st == XS_OTHER_EXC)
                fail("odd-error", opname(o) + ": " + (r.o.what.empty() ? "an exception that is no std::exception" : r.o.what));
        }
        if (after > before) {
            // Memory may be cached once; it must not grow with every failure.
            for (int k = 0; k < 3; ++k)
                c.call(q);
            uint64_t mid = rt::live_count();
            for (int k = 0; k < 3; ++k)
                c.call(q);
            uint64_t end = rt::live_count();
            if (end > mid)
                fail("leak", strf("%s: %llu blocks lost in 3 identical failing calls", opname(o).c_str(),
                                  static_cast<unsigned long long>(end - mid)));
        }
        c.check_insts_unchanged();
        Req z     = l.req(o);
        Res clean = c.call(z);
        if (clean.str() != b.str())
            fail("aftermath", opname(o) + ": the call repeated with memory available differs from the undisturbed one:\n  " +
                                  b.str().substr(0, 400) + "\n  " + clean.str().substr(0, 400));
    }
}

// --------------------------------------------------------------------------------- C17
void gen_C17_io(Rng& r, Plan& p);
void exec_C17_io(Ctx& c, Op const& o);
static void gen_C17(Rng& r, Plan& p) {
    if (r.chance(0.25)) {
        gen_C17_io(r, p);
        return;
    }
    int ni = r.chance(0.3) ? 2 : 1;
    for (int k = 0; k < ni; ++k) {
        GenLim l;
        l.max_rows = r.chance(0.85) ? 60 : 130;
        l.big_p    = 0.03;
        p.insts.push_back(gen_inst(r, l));
        p.params.push_back(gen_params(r, p.insts.back().x));
    }
    int n = static_cast<int>(r.in(2, 7));
    for (int k = 0; k < n; ++k) {
        Op       o;
        uint64_t z = r.below(20);
        int      i = static_cast<int>(r.below(static_cast<uint64_t>(ni)));
        o.name     = "call";
        o.set("e", z < 12 ? "run" : z < 17 ? "tp" : "greedy").set("i", i).set("p", i);
        if (o.str("e") == "run" && r.chance(0.35))
            o.set("w", 1);
        if (o.str("e") == "greedy") {
            o.set("m", r.below(64));
            if (r.chance(0.5))
                o.setf("cut", sut_cast(p.insts[static_cast<size_t>(i)].warm.cost * static_cast<long double>(0.4 + r.real())));
        } else if (r.chance(0.6))
            o.set("x", rand_exp_reads(r));
        if (o.str("e") != "run" && r.chance(0.5))
            o.set("obj", 1);
        if (r.chance(0.15))
            perturb(r, o, true);
        p.ops.push_back(o);
    }
}
static void exec_C17(Ctx& c) {
    if (!dbg::sut_run)
        invalid("this variant has no build with assertions");
    Lib l(c);
    struct G {
        SutObj*      o = sut_make_obj();
        dbg::SutObj* d = dbg::sut_make_obj();
        ~G() {
            sut_free_obj(o);
            dbg::sut_free_obj(d);
        }
    } g;
    for (auto const& o : c.p.ops) {
        if (o.name != "call") {
            exec_C17_io(c, o);
            continue;
        }
        Req q           = l.full(o);
        q.cfg.max_ticks = 20000000000ULL;
        if (o.has("obj")) {
            q.obj  = g.o;
            q.dobj = g.d;
        }
        Res rel = c.call(q);
        c.debug = true;
        Res deb = c.call(q);
        c.debug = false;
        rt::sh->nontrivial += 1;
        if (rel.str() != deb.str())
            fail("differs", strf("%s: the build with assertions returns\n  %s\n  the build without\n  %s", opname(o).c_str(), deb.str().substr(0, 500).c_str(),
                                 rel.str().substr(0, 500).c_str()));
    }
}
// --------------------------------------------------------------------------------- C18
void gen_C18_io(Rng& r, Plan& p);
void exec_C18_io(Ctx& c, Op const& o);
uint64_t mem_size(XInst const& x) {
    uint64_t n = static_cast<uint64_t>(x.nrows) + x.cols.size();
    for (auto const& v : x.cols)
        n += v.size();
    return n;
}
uint64_t mem_allowed(XInst const& x) {
    // about twice the largest ever measured (probe 24)
    uint64_t t = static_cast<uint64_t>(sut_type_bytes());
    return 30000 + t * (14 + t / 4) * (mem_size(x) + x.cols.size());
}
static void gen_C18(Rng& r, Plan& p) {
    if (r.chance(0.2)) {
        gen_C18_io(r, p);
        return;
    }
    int ni = r.chance(0.3) ? 2 : 1;
    for (int k = 0; k < ni; ++k) {
        GenLim l;
        uint64_t z = r.below(10);
        l.max_rows = z < 4 ? 15 : z < 8 ? 50 : 140;
        l.big_p    = 0.05;
        l.huge_p   = 0.02;
        p.insts.push_back(gen_inst(r, l));
        XParams x = gen_params(r, p.insts.back().x);
        if (l.max_rows < 100 && mem_size(p.insts.back().x) < 1500) {  // a long search
            if (r.chance(0.7))
                x.heur = r.pick<uint64_t>({1000, 5000, 200000});
            if (r.chance(0.7)) {
                x.abs_exit = 0;
                x.rel_exit = 0;
                x.eps      = 0;
            }
            if (r.chance(0.5)) {
                x.beta  = 0;
                x.alpha = r.pick({1.01L, 1.1L});
            }
        }
        p.params.push_back(x);
    }
    int n = static_cast<int>(r.in(1, 5));
    for (int k = 0; k < n; ++k) {
        Op       o;
        uint64_t z = r.below(20);
        int      i = static_cast<int>(r.below(static_cast<uint64_t>(ni)));
        o.name     = "call";
        o.set("e", z < 9 ? "run" : z < 17 ? "tp" : "greedy").set("i", i).set("p", i);
        if (o.str("e") == "run" && r.chance(0.35))
            o.set("w", 1);
        if (o.str("e") == "greedy")
            o.set("m", r.below(64));
        else  // long, but not for ever
            o.set("x", r.chance(0.2) ? strf("r:%llu", static_cast<unsigned long long>(r.in(2, 40))) : strf("r:%llu", static_cast<unsigned long long>(r.chance(0.5) ? r.in(200, 2000) : r.chance(0.8) || mem_size(p.insts[static_cast<size_t>(i)].x) > 500 ? r.in(2000, 20000) : r.in(20000, 80000))));
        if (r.chance(0.3))
            o.set("v", r.in(1, 5));
        if (o.str("e") != "run") {
            o.set("obj", 1);
            if (r.chance(0.4) && mem_size(p.insts[static_cast<size_t>(i)].x) < 1500)
                o.set("rounds", r.in(8, 14)).set("x", strf("r:%llu", static_cast<unsigned long long>(r.in(20, 300))));
        }
        if (r.chance(0.15))
            perturb(r, o, false);
        p.ops.push_back(o);
    }
}
static void exec_C18(Ctx& c) {
    Lib     l(c);
    SutObj* obj = nullptr;
    struct G {
        SutObj*& o;
        ~G() {
            if (o)
                sut_free_obj(o);
        }
    } g{obj};
    uint64_t largest = 0;
    for (auto const& o : c.p.ops) {
        if (o.name != "call") {
            exec_C18_io(c, o);
            continue;
        }
        Req q = l.full(o);
        if (o.has("v"))
            q.verbose = static_cast<int>(o.i("v"));
        if (o.has("obj")) {
            if (!obj)
                obj = sut_make_obj();
            q.obj = obj;
        }
        uint64_t mine = mem_allowed(c.inst(q.inst));
        if (q.obj)
            largest = std::max(largest, mine);
        uint64_t bound  = q.obj ? largest : mine;  // a reused object may keep what it needed before
        uint64_t rounds = q.obj ? 1 + o.u("rounds", 0) : 1, settled = 0;
        for (uint64_t k = 0; k < rounds; ++k) {
            Res r = c.call(q);
            c.check_ok(r, opname(o).c_str());
            c.note(r.c.peak_bytes);
            rt::sh->probes[24] = std::max(rt::sh->probes[24], 1000 * r.c.peak_bytes / bound);
            if (r.c.clock_reads > 1000)
                rt::sh->nontrivial += 1;
            if (r.c.peak_bytes > bound)
                fail("too-much-memory", strf("%s: %llu bytes in use at a time for an instance of %llu nonzeros, rows and columns", opname(o).c_str(),
                                             static_cast<unsigned long long>(r.c.peak_bytes), static_cast<unsigned long long>(mem_size(c.inst(q.inst)))));
            if (k == 5)
                settled = r.c.live_bytes;
            if (k > 5 && r.c.live_bytes > settled)
                fail("growing", strf("%s: after %llu equal calls the function object holds %llu bytes more than after six", opname(o).c_str(),
                                     static_cast<unsigned long long>(k + 1), static_cast<unsigned long long>(r.c.live_bytes - settled)));
        }
    }
}
void register_lib(std::map<string, Check>& m) {
    m["C01"] = {gen_C01, exec_C01};
    m["C02"] = {gen_C02, exec_C02};
    m["C03"] = {gen_C03, exec_C03};
    m["C04"] = {gen_C04, exec_C04};
    m["C05"] = {gen_C05, exec_C05};
    m["C06"] = {gen_C06, exec_C06};
    m["C07"] = {gen_C07, exec_C07};
    m["C08"] = {gen_C08, exec_C08};
    m["C14"] = {gen_C14, exec_C14};
    m["C17"] = {gen_C17, exec_C17};
    m["C18"] = {gen_C18, exec_C18};
}
