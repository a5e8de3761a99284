#include "harness.h"

#include <string.h>

void fail(std::string const& cls, std::string const& msg) {
    throw Violation{cls, msg};
}
void invalid(std::string const& msg) {
    throw Invalid{msg};
}
std::string inst_str(XInst const& x) {
    std::string s = strf("%d/", x.nrows);
    for (size_t j = 0; j < x.cols.size(); ++j) {
        s += strf("%La:", x.costs[j]);
        for (int i : x.cols[j])
            s += strf("%d,", i);
        s += ";";
    }
    return s;
}
Expiry Expiry::parse(std::string const& s, uint64_t ticks, uint64_t reads) {
    Expiry e;
    if (s.empty() || s == "none")
        return e;
    e.kind = s[0];
    if (s.size() < 3)
        return e;
    uint64_t v = strtoull(s.c_str() + 2, nullptr, 10);
    if (s[1] == '%') {  // parts per million of the undisturbed run
        uint64_t tot = e.kind == 'r' ? reads : ticks;
        e.at         = static_cast<uint64_t>(static_cast<long double>(tot) * static_cast<long double>(v) / 1e6L) + 1;
    } else if (s[1] == '-') {  // counted from the end
        uint64_t tot = e.kind == 'r' ? reads : ticks;
        e.at         = tot > v ? tot - v : 1;
    } else
        e.at = v;
    return e;
}
std::string Expiry::str() const {
    return strf("%c:%llu", kind, static_cast<unsigned long long>(at));
}
std::string Res::str() const {
    if (o.st != XS_OK)
        return strf("error %d %s", static_cast<int>(o.st), o.what.c_str());
    return res_str(r);
}
static std::function<void()> const* g_f;
void in_sim(std::function<void()> const& f) {
    g_f = &f;
    rt::on_fresh_stack([](void*) { (*g_f)(); }, nullptr);
}
Ctx::Ctx(Plan const& pl) : p(pl) {
    for (auto const& i : p.insts) {
        insts.push_back(sut_make_inst(i.x));
        inst_snap.push_back(inst_str(sut_get_inst(insts.back())));
    }
}
Ctx::~Ctx() {
    for (auto i : insts)
        sut_free_inst(i);
    for (auto i : dinsts)
        dbg::sut_free_inst(i);
}
void Ctx::note(std::string const& s) {
    h = rt::fnv(h, s.data(), s.size());
}
void Ctx::note(uint64_t v) {
    h = rt::fnv(h, &v, sizeof v);
}
XInst const& Ctx::inst(int k) const {
    if (p.insts.empty())
        invalid("no instance");
    return p.insts[static_cast<size_t>(k) % p.insts.size()].x;
}
XParams const& Ctx::par(int k) const {
    if (p.params.empty())
        invalid("no params");
    return p.params[static_cast<size_t>(k) % p.params.size()];
}
static int64_t const SEC = 1000000000LL;
Res Ctx::call(Req const& q) {
    Res     res;
    rt::Cfg c = q.cfg;
    XParams P = par(q.par);
    if (q.verbose >= 0)
        P.verbose = static_cast<uint64_t>(q.verbose);
    using rt::ClockEv;
    switch (q.exp.kind) {
    case 'n': break;
    case 's':
        P.time_limit = q.exp.at == 1 ? 0.0 : 50;
        if (q.exp.at == 1)
            c.rate_ns = 1000000;
        else
            c.clock_evs.push_back(ClockEv{1, 2, 0, 1000 * SEC, rt::K_EXPIRE_START});
        break;
    case 't':
        P.time_limit = 100;
        c.rate_ns    = 1;
        c.clock_evs.push_back(ClockEv{0, q.exp.at, 0, 1000 * SEC, rt::K_EXPIRE_TICK});
        break;
    case 'q':
        P.time_limit = 10;
        c.rate_ns    = std::max<int64_t>(1, 10 * SEC / static_cast<int64_t>(std::max<uint64_t>(1, q.exp.at)));
        rt::fired(rt::K_EXPIRE_TICK);
        break;
    case 'r':
        P.time_limit = 100;
        c.rate_ns    = 1;
        c.clock_evs.push_back(ClockEv{1, std::max<uint64_t>(2, q.exp.at), 0, 1000 * SEC, rt::K_EXPIRE_READ});
        break;
    default: invalid("bad expiry");
    }
    if (q.exp.kind == 's' && q.exp.at == 1)
        rt::fired(rt::K_EXPIRE_START);
    SutInst* si = insts[static_cast<size_t>(q.inst) % insts.size()];
    bool     cap = P.verbose > 0 && !q.keep_cfg;
    if (cap)
        rt::fs::capture_std(true);
    if (!q.keep_cfg)
        rt::cfg_set(c);
    res.alloc_live_before = rt::live_count();
    dbg::SutInst* di = nullptr;
    if (debug) {
        for (size_t k = dinsts.size(); k < p.insts.size(); ++k)
            dinsts.push_back(dbg::sut_make_inst(p.insts[k].x));
        di = dinsts[static_cast<size_t>(q.inst) % dinsts.size()];
    }
    auto body = [&] {
        if (debug && q.entry == "run")
            res.o = dbg::sut_run(di, P, q.warm, res.r);
        else if (debug && q.entry == "tp")
            res.o = dbg::sut_three_phase(q.dobj, di, P, res.r);
        else if (debug && q.entry == "greedy")
            res.o = dbg::sut_greedy(q.dobj, di, q.mults, q.cutoff, res.r.sol);
        else if (q.entry == "run")
            res.o = sut_run(si, P, q.warm, res.r);
        else if (q.entry == "tp")
            res.o = sut_three_phase(q.obj, si, P, res.r);
        else if (q.entry == "greedy")
            res.o = sut_greedy(q.obj, si, q.mults, q.cutoff, res.r.sol);
        else
            invalid("bad entry " + q.entry);
    };
    if (q.keep_cfg)
        body();
    else
        in_sim(body);
    res.alloc_live_after = rt::live_count();
    res.c                = rt::counters();
    if (cap)
        rt::fs::capture_std(false);
    if (!q.keep_cfg) {
        rt::sh->probes[23] = std::max(rt::sh->probes[23], 1000 * res.c.ticks / c.max_ticks);
        sig = rt::mix(sig, rt::edge_signature());
        note(res.c.ticks);
        note(res.c.clock_reads);
        note(res.c.allocs);
        note(res.str());
        check_heap();
    }
    return res;
}
void Ctx::check_heap() const {
    char const* w = nullptr;
    if (rt::heap_corrupted(&w))
        fail("heap-corruption", strf("heap corrupted: %s", w));
}
void Ctx::check_ok(Res const& r, char const* what) const {
    if (r.o.st != XS_OK)
        fail("error", strf("%s: call ended with an error (%d: %s)", what, static_cast<int>(r.o.st), r.o.what.c_str()));
}
void Ctx::check_result(Req const& q, Res const& r, std::string const& what) const {
    XInst const& x = inst(q.inst);
    std::string  cls, why;
    check_ok(r, what.c_str());
    if (q.entry == "greedy" && q.cutoff >= 0) {
        if (!(r.r.sol.cost < sut_cast(q.cutoff)))
            return;  // nothing below the cutoff found: no solution promised
    }
    if (!check_sol(x, r.r.sol, cls, why))
        fail(cls, what + ": " + why);
}
void Ctx::check_insts_unchanged() const {
    for (size_t i = 0; i < insts.size(); ++i)
        if (inst_str(sut_get_inst(insts[i])) != inst_snap[i])
            fail("instance-modified", strf("instance %zu of the caller was modified", i));
}
rt::Cfg cfg_of(Op const& o) {
    rt::Cfg c;
    c.fill       = static_cast<int>(o.i("fill", 0xA5));
    c.addr_seed  = o.u("addr", 0);
    c.stack_fill = static_cast<int>(o.i("stack", 0x5A));
    c.rate_ns    = o.i("rate", 1000);
    c.base_ns    = o.i("base", 1000000000LL);
    if (o.has("fill"))
        rt::fired(rt::K_HEAP_GARBAGE);
    if (o.has("addr"))
        rt::fired(rt::K_ADDR_PERTURB);
    if (o.has("stack"))
        rt::fired(rt::K_STACK_GARBAGE);
    if (o.has("rate"))
        rt::fired(rt::K_CLOCK_RATE);
    using rt::ClockEv;
    if (o.has("stall_at"))
        c.clock_evs.push_back(ClockEv{0, o.u("stall_at"), 1, 0, rt::K_CLOCK_STALL});
    if (o.has("resume_at"))
        c.clock_evs.push_back(ClockEv{0, o.u("resume_at"), 1, 1000, rt::K_CLOCK_RATE});
    if (o.has("jump_at"))
        c.clock_evs.push_back(ClockEv{0, o.u("jump_at"), 0, o.i("jump", SEC), rt::K_CLOCK_JUMP});
    if (o.has("wall_at"))
        c.clock_evs.push_back(ClockEv{0, o.u("wall_at"), 2, o.i("wall", -SEC), rt::K_WALL_JUMP});
    return c;
}
void perturb(Rng& r, Op& o, bool mild) {
    if (r.chance(0.6))
        o.set("fill", r.pick({0, -1, 0xFF, 0x7F, 0x01, 0x40}));
    if (r.chance(0.5))
        o.set("addr", r.next() >> 20);
    if (r.chance(0.6))
        o.set("stack", r.pick({0, -1, 0xFF, 0x7F, 0x01}));
    if (mild)
        return;
    if (r.chance(0.5))
        o.set("rate", r.pick<long long>({0, 1, 17, 100000, 50000000}));
    if (r.chance(0.3))
        o.set("base", r.pick<long long>({0, 1, 123456789LL, 4000000000000000LL}));
    if (r.chance(0.3))
        o.set("jump_at", r.below(200000)).set("jump", r.pick<long long>({1000, 1000000, SEC, 3600 * SEC, 100000 * SEC}));
    if (r.chance(0.3))
        o.set("wall_at", r.below(200000)).set("wall", r.pick<long long>({-3600 * SEC, 3600 * SEC, -1200000000LL * SEC, 3000000000LL * SEC}));
    if (r.chance(0.2))
        o.set("stall_at", r.below(100000));
    if (r.chance(0.2))
        o.set("resume_at", 100000 + r.below(100000));
}
std::vector<long double> mults_of(XInst const& x, uint64_t seed) {
    Rng                      r(seed);
    std::vector<long double> m(static_cast<size_t>(x.nrows));
    long double              mean = 0;
    for (auto c : x.costs)
        mean += c;
    mean /= static_cast<long double>(x.costs.size());
    int mode = static_cast<int>(seed % 4);
    for (auto& v : m)
        v = mode == 0 ? 0 : sut_cast(static_cast<long double>(r.below(64)) / 32 * (mode == 1 ? 1 : mean / 4 + 0.25L));
    return m;
}
