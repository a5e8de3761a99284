#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "harness.h"
#include "ioref.h"

using std::string;
using std::vector;
namespace fs = rt::fs;

static int64_t const SEC = 1000000000LL;

// ------------------------------------------------------------------------------- helpers
static string opstr(Op const& o) {
    string s = o.name;
    for (auto const& k : o.kv)
        s += " " + k.first + "=" + k.second;
    return s;
}
static unsigned long long U(uint64_t v) {
    return static_cast<unsigned long long>(v);
}
// Files of the plan go to the simulated disk.
static void put_files(Ctx& c) {
    fs::reset();
    for (auto const& n : c.p.file_order)
        fs::put(n, c.p.files.at(n));
}
static string content(string const& path) {
    string d;
    if (!fs::get(path, d))
        return string("\1absent");
    return d;
}
// I/O faults named in an op:
//  noise=SEED      random short transfers     eintr=PPM   random EINTR
//  r:N=ERR[s]      N-th read fails            w:N=ERR[s]  N-th write fails ("s": and all later ones)
//  wsh=N:K[s]      N-th write transfers K bytes, later failing with ENOSPC
//  cap=BYTES       bytes free on disk         close=ERR[:K]  close fails, file cut to K bytes
//  open=N:ERR      N-th open fails            so=BYTES    stdout fails after BYTES
static fs::Ctl ctl_of(Op const& o) {
    fs::Ctl c;
    c.chunk_seed = o.u("noise");
    c.noise_seed = o.u("noise", 1);
    c.eintr_ppm  = static_cast<unsigned>(o.u("eintr"));
    auto one     = [&](char const* key, fs::Op op, rt::Kind k) {
        if (!o.has(key))
            return;
        string    v = o.str(key);
        fs::Fault f{op, 1, 0, -1, false, k, ""};
        f.nth    = strtoull(v.c_str(), nullptr, 10);
        size_t a = v.find(':');
        if (a == string::npos)
            invalid("bad fault " + v);
        f.err    = static_cast<int>(strtol(v.c_str() + a + 1, nullptr, 10));
        f.sticky = v.back() == 's';
        c.faults.push_back(f);
    };
    one("rd", fs::READ, rt::K_EIO_READ);
    one("wr", fs::WRITE, rt::K_EIO_WRITE);
    one("open", fs::OPEN, rt::K_OPEN_FAIL);
    if (o.has("wsh")) {  // a short write, then the disk is full
        string    v = o.str("wsh");
        fs::Fault f{fs::WRITE, 1, 0, -1, false, rt::K_SHORT_WRITE, ""};
        f.nth    = strtoull(v.c_str(), nullptr, 10);
        size_t a = v.find(':');
        f.shrt   = a == string::npos ? 1 : strtol(v.c_str() + a + 1, nullptr, 10);
        f.shrt   = std::max<int64_t>(1, f.shrt);
        c.faults.push_back(f);
        if (v.back() == 's')
            c.faults.push_back(fs::Fault{fs::WRITE, f.nth + 1, ENOSPC, -1, true, rt::K_ENOSPC, ""});
    }
    if (o.has("close")) {
        string    v = o.str("close");
        fs::Fault f{fs::CLOSE, 0, 0, -1, false, rt::K_CLOSE_ERR, o.str("closef")};
        f.err    = static_cast<int>(strtol(v.c_str(), nullptr, 10));
        size_t a = v.find(':');
        if (a != string::npos)
            f.shrt = strtol(v.c_str() + a + 1, nullptr, 10);
        c.faults.push_back(f);
    }
    if (o.has("cap"))
        c.disk_cap = o.i("cap");
    if (o.has("so")) {
        c.stdout_cap = o.i("so");
        c.stdout_err = ENOSPC;
    }
    return c;
}
static uint64_t hard_write_faults() {
    auto const* f = rt::sh->stats.fired;
    return f[rt::K_ENOSPC] + f[rt::K_EIO_WRITE] + f[rt::K_CLOSE_ERR] + f[rt::K_OPEN_FAIL];
}
static rt::Cfg io_cfg(Op const& o) {
    rt::Cfg c   = cfg_of(o);
    c.max_alloc = 64u << 20;
    c.max_ticks = 400000000ULL;
    return c;
}
static string inst_diff(XInst const& a, XInst const& b) {
    if (a.nrows != b.nrows)
        return strf("%d rows, the file says %d", a.nrows, b.nrows);
    if (a.cols.size() != b.cols.size() || a.costs.size() != b.costs.size())
        return strf("%zu columns and %zu costs, the file says %zu columns", a.cols.size(), a.costs.size(), b.cols.size());
    for (size_t j = 0; j < a.cols.size(); ++j) {
        if (a.costs[j] != b.costs[j])
            return strf("cost of column %zu is %.21Lg, the file says %.21Lg", j, a.costs[j], b.costs[j]);
        auto u = a.cols[j], v = b.cols[j];
        std::sort(u.begin(), u.end());
        std::sort(v.begin(), v.end());
        if (u != v)
            return strf("column %zu covers other rows than the file says", j);
    }
    return "";
}
template <typename F>
static XOut io_call(Ctx& c, Op const& o, fs::Ctl const& ctl, rt::Cfg const& cfg, F f) {
    (void)o;
    rt::cfg_set(cfg);
    fs::ctl(ctl);
    XOut r;
    in_sim([&] { r = f(); });
    auto k = rt::counters();
    c.sig  = rt::mix(c.sig, rt::edge_signature());
    c.note(k.ticks);
    c.note(k.allocs);
    c.note(fs::total_ops());
    c.note(strf("%d %s", static_cast<int>(r.st), r.what.c_str()));
    c.check_heap();
    uint64_t fds = fs::open_fds();
    fs::close_all();
    if (fds)
        fail("descriptor-leak", strf("%llu files were left open", U(fds)));
    if (r.st == XS_OTHER_EXC)
        fail("odd-error", "an exception that is no std::exception");
    return r;
}
static PlanInst io_inst(Rng& r, int max_rows, double big, double dense = 0) {
    GenLim l;
    l.max_rows = max_rows;
    l.big_p    = big;
    l.huge_p   = dense;
    l.dense_only = true;
    PlanInst p = gen_inst(r, l);
    for (auto& v : p.x.cols)
        std::sort(v.begin(), v.end());
    return p;
}
static void add_file(Plan& p, string const& n, string const& d) {
    if (!p.files.count(n))
        p.file_order.push_back(n);
    p.files[n] = d;
}
static string rand_fmt(Rng& r) {
    return r.pick<string>({"RAIL", "SCP", "CVRP", "MPS"});
}
static void noise(Rng& r, Op& o) {
    if (r.chance(0.7))
        o.set("noise", 1 + (r.next() >> 40));
    if (r.chance(0.4))
        o.set("eintr", r.pick<uint64_t>({10000, 100000, 500000}));
}

// --------------------------------------------------------------------------------- C09
static void gen_C09(Rng& r, Plan& p) {
    int n = static_cast<int>(r.in(2, 6));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name     = "write";
        uint64_t z = r.below(10);
        uint64_t m = z < 2 ? r.below(6) : z < 5 ? r.below(300) : z < 8 ? 800 + r.below(2500) : z < 9 ? r.below(12000) : r.below(60000);
        o.set("n", m).set("cols", r.next() >> 24);
        long double v;
        switch (r.below(9)) {
        case 0: v = static_cast<long double>(r.below(10)); break;
        case 1: v = static_cast<long double>(r.below(100000000)); break;
        case 2: v = static_cast<long double>(r.below(1u << 20)) / 8; break;
        case 3: v = static_cast<long double>(r.real()) * 1000; break;
        case 4: v = std::ldexp(static_cast<long double>(1 + (r.next() >> 12)), static_cast<int>(r.in(-120, 60))); break;
        case 5: v = static_cast<long double>(r.next() >> 1); break;
        case 6: v = 1.0L / static_cast<long double>(3 + r.below(1000)); break;
        case 7: v = static_cast<long double>(r.in(1, 99)) * std::pow(10.0L, static_cast<long double>(r.in(-9, 20))); break;
        default: v = static_cast<long double>(r.below(1000000)) / 100; break;
        }
        o.setf("cost", sut_cast(v));
        o.set("f", r.chance(0.7) ? "/simfs/a.sol" : "/simfs/b.sol");
        noise(r, o);
        size_t bytes = m * 6 + 8;
        if (r.chance(0.6)) {
            switch (r.below(7)) {
            case 0: o.set("wr", strf("%llu:%d%s", U(1 + r.below(r.chance(0.6) ? 2 : 12)), r.pick({EIO, ENOSPC, EDQUOT}), r.chance(0.6) ? "s" : "")); break;
            case 1: o.set("cap", r.below(bytes + 2)); break;
            case 2: o.set("close", strf("%d", r.pick({EIO, ENOSPC, EDQUOT}))); break;
            case 3: o.set("close", strf("%d:%llu", r.pick({EIO, ENOSPC}), U(r.below(bytes)))); break;
            case 4: o.set("open", strf("1:%d", r.pick({EACCES, ENOSPC, EROFS, EMFILE, ENOENT}))); break;
            case 5: o.set("wsh", strf("%llu:%llus", U(1 + r.below(3)), U(1 + r.below(r.chance(0.5) ? 16 : 9000)))); break;
            default: o.set("wsh", strf("%llu:%llu", U(1 + r.below(3)), U(1 + r.below(r.chance(0.5) ? 16 : 9000)))); break;
            }
        }
        p.ops.push_back(o);
    }
}
static void exec_C09(Ctx& c) {
    put_files(c);
    for (auto const& o : c.p.ops) {
        XSol     s;
        uint64_t n = o.u("n");
        Rng      r(o.u("cols") + 1);
        long long hi = std::min<long long>(sut_max_cols(), 4000000);
        for (uint64_t k = 0; k < n; ++k)
            s.idxs.push_back(static_cast<long long>(r.below(static_cast<uint64_t>(r.chance(0.3) ? std::min<long long>(hi, 100) : hi))));
        s.cost      = sut_cast(o.f("cost"));
        string path = o.str("f", "/simfs/a.sol");
        auto   ctl  = ctl_of(o);
        if (ctl.disk_cap >= 0) {  // free space beyond what is used by other files
            fs::Ctl z;
            for (auto const& f : fs::snapshot())
                if (f.path != path && f.used)
                    ctl.disk_cap += static_cast<int64_t>(f.v.size());
        }
        uint64_t h0 = hard_write_faults();
        XOut     w  = io_call(c, o, ctl, io_cfg(o), [&] { return sut_write_solution(path, s); });
        uint64_t h  = hard_write_faults() - h0;
        if (w.st == XS_OK) {
            if (h)
                fail("lost-write", opstr(o) + ": a write, close or open failed, yet success was reported");
            if (!fs::exists(path))
                fail("no-file", opstr(o) + ": success was reported but there is no file");
            string d = content(path);
            c.note(d);
            XSol  t;
            RefSt q = ref_solution(d, t);
            if (q != REF_OK)
                fail("not-a-solution", opstr(o) + ": the file does not hold a solution: " + d.substr(0, 120));
            if (t.idxs != s.idxs) {
                size_t k = 0;
                while (k < t.idxs.size() && k < s.idxs.size() && t.idxs[k] == s.idxs[k])
                    ++k;
                fail("wrong-columns", strf("%s: the file lists %zu columns, written were %zu; first difference at %zu", opstr(o).c_str(),
                                           t.idxs.size(), s.idxs.size(), k));
            }
            if (t.cost != s.cost)
                fail("wrong-stated-cost", strf("%s: the file states cost %.21Lg, written was %.21Lg", opstr(o).c_str(), t.cost, s.cost));
            Op      nz;
            fs::Ctl rd;
            rd.chunk_seed = rd.noise_seed = 99;
            rd.eintr_ppm                  = 100000;
            XSol b;
            XOut e = io_call(c, o, rd, io_cfg(nz), [&] { return sut_parse_solution(path, b); });
            if (e.st != XS_OK)
                fail("unreadable", opstr(o) + ": reading the file back failed: " + e.what);
            if (sol_str(b) != sol_str(s))
                fail("read-back-differs", opstr(o) + ": reading the file back gives another solution");
            if (ctl.chunk_seed || ctl.eintr_ppm || !ctl.faults.empty())
                rt::sh->nontrivial += 1;
        } else {
            rt::sh->nontrivial += 1;
            if (!h)
                fail("spurious-failure", opstr(o) + ": writing failed although no write, close or open failed: " + w.what);
        }
    }
}

// --------------------------------------------------------------------------------- C10
static void gen_C10(Rng& r, Plan& p) {
    PlanInst pi  = io_inst(r, 140, 0.15, 0.002);
    string   fmt = rand_fmt(r);
    XSol     init = random_cover(r, pi.x);
    bool     ini  = fmt == "CVRP" && r.chance(0.7);
    string   text = write_instance(r, fmt, pi.x, ini ? &init : nullptr);
    Ref      ref  = ref_instance(fmt, text);
    if (ref.st != REF_OK || !inst_diff(ref.x, pi.x).empty() || (ini && ref.init.idxs != init.idxs))
        p.ops.push_back(Op{"generator-bug " + ref.why, {}});
    add_file(p, "/simfs/inst", text);
    XSol s   = random_cover(r, pi.x);
    s.cost   = sut_cast(s.cost);
    string t = write_sol_text(r, s);
    XSol   q;
    if (ref_solution(t, q) != REF_OK || q.idxs != s.idxs || q.cost != s.cost)
        p.ops.push_back(Op{"generator-bug", {}});
    add_file(p, "/simfs/sol", t);
    int n = static_cast<int>(r.in(4, 12));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "read";
        bool sol = r.chance(0.2);
        o.set("f", sol ? "/simfs/sol" : "/simfs/inst").set("fmt", sol ? "SOL" : fmt);
        if (!sol && r.chance(0.4))
            o.set("val", 1);
        noise(r, o);
        uint64_t len = sol ? t.size() : text.size();
        uint64_t z   = r.below(10);
        if (z < 4) {
            uint64_t at = r.chance(0.3) ? len - std::min<uint64_t>(len, r.below(40)) : r.chance(0.15) ? r.below(20) : r.below(len + 1);
            if (r.chance(0.4) && !sol) {  // at the end of a line
                size_t e = text.find('\n', std::min<size_t>(at, text.size()));
                if (e != string::npos)
                    at = e + r.below(2);
            }
            o.set("trunc", std::min(at, len));
        } else if (z < 7) {
            // most reads come in 8 KB pieces; with noise there are many small ones
            uint64_t nth = o.has("noise") ? 1 + r.below(len / 60 + 3) : 1 + r.below(len / 8191 + 2);
            o.set("rd", strf("%llu:%d%s", U(nth), r.pick({EIO, EIO, ESTALE, ENOMEM}), r.chance(0.5) ? "s" : ""));
        }
        if (r.chance(0.2))
            perturb(r, o, true);
        p.ops.push_back(o);
    }
}
static void exec_C10(Ctx& c) {
    for (auto const& o : c.p.ops) {
        if (o.name != "read")
            invalid(o.name);
        put_files(c);
        string path = o.str("f"), fmt = o.str("fmt");
        if (!c.p.files.count(path))
            continue;
        string full = c.p.files.at(path);
        string text = full;
        bool   hurt = false;
        if (o.has("trunc")) {
            text = full.substr(0, o.u("trunc"));
            fs::put(path, text);
            rt::fired(rt::K_TRUNCATE);
            hurt = text.size() < full.size();
        }
        auto     ctl = ctl_of(o);
        uint64_t e0  = rt::sh->stats.fired[rt::K_EIO_READ];
        XSol     init;
        SutInst* si = nullptr;
        XOut     r  = io_call(c, o, ctl, io_cfg(o), [&] {
            if (fmt == "SOL")
                return sut_parse_solution(path, init);
            if (o.has("val"))
                return sut_parse_validated(fmt, path, "", false, &si, init);
            return sut_parse(fmt, path, &si, init);
        });
        struct F {
            SutInst* s;
            ~F() {
                if (s)
                    sut_free_inst(s);
            }
        } g{si};
        bool eio = rt::sh->stats.fired[rt::K_EIO_READ] > e0;
        hurt     = hurt || eio;
        if (hurt)
            rt::sh->nontrivial += 1;
        string got = eio ? text.substr(0, fs::bytes_read()) : text;
        Ref    ref;
        XSol   rs;
        if (fmt == "SOL")
            ref.st = ref_solution(got, rs);
        else
            ref = ref_instance(fmt, got);
        if (r.st != XS_OK) {
            c.note("error");
            if (!hurt && ref.st == REF_OK) {
                std::vector<char> cov(static_cast<size_t>(ref.x.nrows), 0);
                bool              all = true;
                for (auto const& v : ref.x.cols)
                    for (int i : v)
                        cov[static_cast<size_t>(i)] = 1;
                for (char b : cov)
                    all = all && b;
                if (fmt == "SOL" || all)
                    fail("refused", opstr(o) + ": reading an intact, well-formed file failed: " + r.what);
            }
            continue;
        }
        if (ref.st == REF_UNCLEAR)
            continue;
        if (ref.st == REF_BAD)
            fail("invented", opstr(o) + ": reading succeeded although the data ends early (" + ref.why + ")" +
                                 (eio ? " because of a read error" : ""));
        if (fmt == "SOL") {
            if (init.idxs != rs.idxs || init.cost != rs.cost)
                fail("misread", opstr(o) + ": solution read is " + sol_str(init).substr(0, 200) + ", the file says " + sol_str(rs).substr(0, 200));
            continue;
        }
        XInst  x = sut_get_inst(si);
        string w;
        c.note(inst_str(x));
        if (!sut_inst_consistent(si, w))
            fail("inconsistent", opstr(o) + ": " + w);
        w = inst_diff(x, ref.x);
        if (!w.empty())
            fail("misread", opstr(o) + ": " + w);
        if (fmt == "CVRP") {
            if (init.idxs != ref.init.idxs)
                fail("misread", opstr(o) + ": the initial solution differs from the file's");
            if (!init.idxs.empty() && !cost_matches(ref.x, init, w))
                fail("misread", opstr(o) + ": initial solution: " + w);
        } else if (!init.idxs.empty())
            fail("invented", opstr(o) + ": an initial solution was returned, the file has none");
    }
}

// ------------------------------------------------------------------------- running the program
struct PRes {
    int      kind = 0;  // 0 exit, 1 injected crash, 2 signal, 3 endless
    int      code = 0;
    string   out, err;
    uint64_t ticks = 0, ios = 0, allocs = 0, failed = 0, bytes = 0, reads = 0;
    string   str() const {
        return kind == 0   ? strf("exit status %d", code)
               : kind == 1 ? string("crashed as injected")
               : kind == 2 ? strf("signal %d (%s)", code, strsignal(code))
                           : string("endless");
    }
};
// Runs accft in a process of its own; only the simulated disk survives it.
static PRes run_program(Ctx& c, vector<string> const& args, rt::Cfg const& cfg, fs::Ctl const& ctl) {
    auto& s   = *rt::sh;
    s.hang    = 0;
    s.crashed = 0;
    memset(s.child_val, 0, sizeof s.child_val);
    s.out_len = s.err_len = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rt::guard_start(200);
        fs::close_all();
        fs::ctl(ctl);
        fs::capture_std(true);
        rt::cfg_set(cfg);
        int rc = -1;
        in_sim([&] { rc = c.debug ? dbg::sut_main(args) : sut_main(args); });
        fflush(stdout);
        fs::capture_std(false);
        auto k         = rt::counters();
        s.child_val[1] = k.ticks;
        s.child_val[2] = fs::total_ops();
        s.child_val[3] = k.allocs;
        s.child_val[4] = k.alloc_failed;
        s.child_val[5] = rt::edge_signature();
        s.child_val[6] = fs::open_fds();
        s.child_val[7] = fs::bytes_read();
        s.child_val[8] = rt::heap_corrupted(nullptr);
        s.child_val[9] = k.clock_reads;
        rt::cfg_set(rt::Cfg());
        s.child_val[0] = 0x51AD0000u + static_cast<uint64_t>(rc & 0xff);
        _exit(0);
    }
    if (pid < 0)
        invalid("fork failed");
    int st = 0;
    rt::guard_pause(true);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    rt::guard_pause(false);
    PRes r;
    r.out.assign(s.out, s.out_len);
    r.err.assign(s.err, s.err_len);
    r.ticks  = s.child_val[1];
    r.ios    = s.child_val[2];
    r.allocs = s.child_val[3];
    r.failed = s.child_val[4];
    r.bytes  = s.child_val[7];
    r.reads  = s.child_val[9];
    if (s.hang) {
        r.kind  = 3;
        r.ticks = s.hang_tick;
        s.hang  = 0;
    } else if (s.crashed) {
        r.kind    = 1;
        s.crashed = 0;
    } else if (WIFSIGNALED(st)) {
        r.kind = 2;
        r.code = WTERMSIG(st);
        if (r.code == SIGKILL)
            invalid("program killed (memory?)");
    } else if ((s.child_val[0] >> 16) == 0x51AD) {
        r.code = static_cast<int>(s.child_val[0] & 0xff);
    } else {
        r.code = WEXITSTATUS(st);
        if (r.code == rt::EXIT_SLOW)
            invalid("left out: too much work for this machine");
        if (r.code == rt::EXIT_ASSERT)
            fail(strf("assertion-%04llx", U(hstr(s.msg) & 0xffff)), string(s.msg));
        if (r.code == 77)
            fail("sanitizer", "sanitizer or library assertion report while running accft (see stderr)");
    }
    c.sig = rt::mix(c.sig, s.child_val[5]);
    rt::sh->probes[23] = std::max(rt::sh->probes[23], 1000 * r.ticks / cfg.max_ticks);
    c.note(r.str());
    c.note(r.ticks);
    c.note(r.ios);
    c.note(r.allocs);
    if (s.child_val[8])
        fail("heap-corruption", "heap corrupted while running accft");
    return r;
}
static void expiry_cfg(Expiry const& e, rt::Cfg& c, string& tl) {
    using rt::ClockEv;
    switch (e.kind) {
    case 'n': return;
    case 's':
        tl        = "0";
        c.rate_ns = 1000000;
        rt::fired(rt::K_EXPIRE_START);
        return;
    case 't':
        tl        = "100";
        c.rate_ns = 1;
        c.clock_evs.push_back(ClockEv{0, e.at, 0, 1000 * SEC, rt::K_EXPIRE_TICK});
        return;
    case 'q':
        tl        = "10";
        c.rate_ns = std::max<int64_t>(1, 10 * SEC / static_cast<int64_t>(std::max<uint64_t>(1, e.at)));
        rt::fired(rt::K_EXPIRE_TICK);
        return;
    case 'r':
        tl        = "100";
        c.rate_ns = 1;
        c.clock_evs.push_back(ClockEv{1, std::max<uint64_t>(2, e.at), 0, 1000 * SEC, rt::K_EXPIRE_READ});
        return;
    default: invalid("bad expiry");
    }
}
static string num_arg(long double v, Rng* r) {
    string a = strf("%.6Lg", v);
    if (sut_real(a.c_str()) != sut_cast(v))
        a = strf("%.21Lg", v);
    if (r && r->chance(0.15) && a.find('e') == string::npos)
        a += a.find('.') == string::npos ? ".0" : "0";
    return a;
}
struct CliSpec {
    string fmt, inst, out, warm, tl;
    int    verbose = 0;
    bool   unit    = false;
};
// The argument list for a specification; order and spelling by the seed (0: fixed).
static vector<string> cli_args(CliSpec const& s, XParams const& P, uint64_t shuffle) {
    Rng                    r(shuffle + 7);
    vector<vector<string>> parts;
    auto                   add = [&](char const* a, char const* b, string const& v) {
        parts.push_back({shuffle && r.chance(0.5) ? b : a, v});
    };
    Rng* rr = shuffle ? &r : nullptr;
    add("-i", "--inst", s.inst);
    if (s.fmt != "RAIL" || !shuffle || r.chance(0.5))
        add("-p", "--parser", s.fmt);
    if (!s.out.empty())
        add("-o", "--out-sol", s.out);
    if (!s.warm.empty())
        add("-w", "--init-sol", s.warm);
    if (P.seed || !shuffle || r.chance(0.5))
        add("-s", "--seed", strf("%llu", U(P.seed)));
    if (!s.tl.empty())
        add("-t", "--timelimit", s.tl);
    if (s.verbose != 4 || !shuffle || r.chance(0.5))
        add("-v", "--verbose", strf("%d", s.verbose));
    add("-e", "--epsilon", num_arg(P.eps, rr));
    if (P.heur != 250 || !shuffle || r.chance(0.5))
        add("-g", "--heur-iters", strf("%llu", U(P.heur)));
    add("-b", "--beta", num_arg(P.beta, rr));
    add("-a", "--abs-subg-exit", num_arg(P.abs_exit, rr));
    add("-r", "--rel-subg-exit", num_arg(P.rel_exit, rr));
    if (s.unit)
        parts.push_back({shuffle && r.chance(0.5) ? "--unit-costs" : "-u"});
    if (shuffle)
        r.shuffle(parts);
    vector<string> a{"accft"};
    for (auto const& p : parts)
        for (auto const& w : p)
            a.push_back(w);
    return a;
}
static void cli_params(Rng& r, Plan& p, XInst const& x) {
    XParams P    = gen_params(r, x);
    P.alpha      = XParams().alpha;
    P.min_fixing = XParams().min_fixing;
    P.verbose    = 0;
    P.time_limit = -1;
    p.params.push_back(P);
}

// --------------------------------------------------------------------------------- C11
static void gen_C11(Rng& r, Plan& p) {
    int nf = static_cast<int>(r.in(1, 4));
    for (int k = 0; k < nf; ++k) {
        PlanInst pi  = io_inst(r, 40, 0.03);
        if (r.chance(0.5) && pi.x.cols.size() > 12)
            pi = io_inst(r, 12, 0);
        string   fmt = rand_fmt(r);
        XSol     s   = random_cover(r, pi.x);
        string   t   = write_instance(r, fmt, pi.x, r.chance(0.6) ? &s : nullptr);
        PlanInst pj  = io_inst(r, 12, 0);
        string   o   = write_instance(r, r.chance(0.5) ? fmt : rand_fmt(r), pj.x, nullptr);
        string   d   = damage(r, t, o);
        string   use = r.chance(0.12) ? rand_fmt(r) : fmt;
        string   n   = strf("/simfs/d%d", k);
        add_file(p, n, d);
        if (k == 0)
            cli_params(r, p, pi.x);
        Op op;
        op.name = "read";
        op.set("f", n).set("fmt", use);
        if (r.chance(0.3))
            noise(r, op);
        p.ops.push_back(op);
        op.name = "validated";
        p.ops.push_back(op);
        string w = strf("/simfs/w%d", k);
        add_file(p, w, damage(r, write_sol_text(r, s), t));
        Op oq;
        oq.name = "solution";
        oq.set("f", w);
        p.ops.push_back(oq);
        op.name = "program";
        if (r.chance(0.5))
            op.set("w", w);
        if (r.chance(0.2))
            op.set("u", 1);
        if (r.chance(0.3))
            op.set("v", r.in(1, 5));
        p.ops.push_back(op);
        if (r.chance(0.5)) {  // intact instance, damaged warm start
            string g = strf("/simfs/g%d", k);
            add_file(p, g, t);
            Op oz;
            oz.name = "program";
            oz.set("f", g).set("fmt", fmt).set("w", w);
            p.ops.push_back(oz);
        }
    }
}
static void exec_C11(Ctx& c) {
    put_files(c);
    for (auto const& o : c.p.ops) {
        string path = o.str("f"), fmt = o.str("fmt");
        rt::fired(rt::K_DAMAGE);
        XSol     init;
        SutInst* si = nullptr;
        struct F {
            SutInst*& s;
            ~F() {
                if (s)
                    sut_free_inst(s);
            }
        } g{si};
        string w;
        if (o.name == "solution") {
            io_call(c, o, ctl_of(o), io_cfg(o), [&] { return sut_parse_solution(path, init); });
            c.note(sol_str(init));
            continue;
        }
        rt::Cfg cfg = io_cfg(o);
        bool    val = o.name != "read";
        XOut    r   = io_call(c, o, ctl_of(o), cfg, [&] {
            return val ? sut_parse_validated(fmt, path, o.str("w"), o.has("u"), &si, init) : sut_parse(fmt, path, &si, init);
        });
        XInst x;
        if (r.st == XS_OK) {
            if (!sut_inst_consistent(si, w))
                fail("inconsistent", opstr(o) + ": the instance read is not well formed: " + w);
            x = sut_get_inst(si);
            c.note(inst_str(x));
            if (fmt == "CVRP")
                for (auto j : init.idxs)
                    if (j < 0 || j >= static_cast<long long>(x.cols.size()))
                        fail("inconsistent", strf("%s: initial solution with column %lld of %zu", opstr(o).c_str(), j, x.cols.size()));
        }
        rt::sh->nontrivial += r.st == XS_OK;
        if (o.name != "program")
            continue;
        XParams P = c.par(0);
        P.heur    = std::min<uint64_t>(P.heur, 30);
        CliSpec s;
        s.fmt     = fmt;
        s.inst    = path;
        s.out     = "/simfs/out";
        s.warm    = o.str("w");
        s.verbose = static_cast<int>(o.i("v", 0));
        s.unit    = o.has("u");
        s.tl      = "1";
        fs::erase(s.out);
        cfg.rate_ns   = 50;  // 20 million steps
        cfg.max_ticks = 1500000000ULL;
        PRes q        = run_program(c, cli_args(s, P, 0), cfg, ctl_of(o));
        if (q.kind == 2)
            fail("program-died", opstr(o) + ": accft ended by " + q.str());
        // Costs outside of what the solver supports: negative, or a total that overflows.
        bool        plain = r.st == XS_OK;
        long double total = 0;
        for (auto v : x.costs) {
            plain = plain && v >= 0;
            total += v;
        }
        plain = plain && total < 1e30L;
        if (q.kind == 3) {
            if (plain || r.st != XS_OK)
                fail("endless", opstr(o) + ": accft does not end (limit ignored)");
            continue;
        }
        if (q.code != 0 && q.code != 1)
            fail("odd-exit", opstr(o) + ": accft ended with " + q.str());
        if (q.code == 1) {
            if (q.err.empty())
                fail("silent-failure", opstr(o) + ": accft failed without a message");
            continue;
        }
        if (r.st != XS_OK)
            fail("accepted-refused", opstr(o) + ": accft succeeded on a file that the reader refuses");
        string d = content(s.out);
        XSol   t;
        if (ref_solution(d, t) != REF_OK)
            fail("no-solution", opstr(o) + ": accft succeeded, but the output file is " + d.substr(0, 100));
        if (plain && !feasible(x, t.idxs, w))
            fail("not-a-cover", opstr(o) + ": accft succeeded with an output that is no cover of the instance it accepted: " + w);
        if (plain && !cost_matches(x, t, w))
            fail("wrong-cost", opstr(o) + ": " + w);
    }
}

// --------------------------------------------------------------------------------- C12
static string rand_expiry(Rng& r) {
    uint64_t z = r.below(10);
    if (z < 1)
        return "s";
    if (z < 5)
        return strf("t%%%llu", U(r.below(1000000)));
    if (z < 8)
        return strf("r:%llu", U(2 + r.below(40)));
    return strf("q%%%llu", U(1 + r.below(999999)));
}
static void gen_C12(Rng& r, Plan& p) {
    int ni = r.chance(0.3) ? 2 : 1;
    vector<string> fmts, insts;
    vector<XSol>   covers;
    for (int k = 0; k < ni; ++k) {
        PlanInst pi  = io_inst(r, 40, 0.02);
        string   fmt = rand_fmt(r);
        XSol     s   = random_cover(r, pi.x);
        string   n   = strf("/simfs/i%d", k);
        add_file(p, n, write_instance(r, fmt, pi.x, r.chance(0.5) ? &s : nullptr));
        cli_params(r, p, pi.x);
        fmts.push_back(fmt);
        insts.push_back(n);
        covers.push_back(s);
    }
    vector<string> sols{"/simfs/a.sol", "/simfs/b.sol"};
    if (r.chance(0.5)) {
        XSol s = covers[0];
        if (r.chance(0.3))
            s.cost += 1;  // states a wrong cost
        add_file(p, sols[0], write_sol_text(r, s));
    }
    int n = static_cast<int>(r.in(1, 5));
    for (int k = 0; k < n; ++k) {
        Op     o;
        size_t i = r.below(static_cast<uint64_t>(ni));
        o.name   = "run";
        o.set("i", insts[i]).set("fmt", fmts[i]).set("p", static_cast<int>(i)).set("o", r.pick<string>({sols[0], sols[0], sols[1]}));
        if (r.chance(0.6))
            o.set("w", r.pick<string>({sols[0], sols[0], sols[1]}));
        if (r.chance(0.2))
            o.set("u", 1);
        if (r.chance(0.3))
            o.set("v", r.in(1, 5));
        o.set("seed", r.below(100));
        if (r.chance(0.4))
            o.set("x", rand_expiry(r));
        uint64_t z = r.below(100);
        if (z < 14)
            o.set("crash", strf("t%llu", U(r.below(1000000))));
        else if (z < 28)
            o.set("crash", strf("i%llu", U(r.below(1000000))));
        else if (z < 36)
            o.set("cap", r.chance(0.5) ? r.below(12) : r.below(150));
        else if (z < 44)
            o.set("wr", strf("%llu:%d%s", U(1 + r.below(2)), r.pick({EIO, ENOSPC}), r.chance(0.6) ? "s" : ""));
        else if (z < 50)
            o.set("wsh", strf("1:%llu%s", U(1 + r.below(60)), r.chance(0.7) ? "s" : ""));
        else if (z < 56)
            o.set("close", r.chance(0.5) ? strf("%d:%llu", EIO, U(r.below(60))) : strf("%d", EIO)).set("closef", o.str("o"));
        else if (z < 62)
            o.set("rd", strf("%llu:%d%s", U(1 + r.below(o.has("w") ? 4 : 3)), EIO, r.chance(0.5) ? "s" : ""));
        else if (z < 66)
            o.set("open", strf("%llu:%d", U(1 + r.below(3)), r.pick({EACCES, EMFILE, ENOSPC})));
        else if (z < 74)
            o.set("mem", r.below(1000000)).set("sticky", r.below(2));
        else if (z < 78)
            o.set("so", r.below(400));
        if (r.chance(0.5))
            noise(r, o);
        if (r.chance(0.15))
            perturb(r, o, true);
        p.ops.push_back(o);
        if (r.chance(o.has("crash") ? 0.6 : 0.25)) {
            Op q;
            q.name = "powerloss";
            q.set("seed", r.next() >> 30);
            p.ops.push_back(q);
        }
        if (r.chance(0.12)) {
            Op q;
            q.name = "rot";  // a stored file is damaged
            q.set("f", r.chance(0.8) ? sols[r.below(2)] : insts[i]).set("seed", r.next() >> 30).set("cut", r.below(2));
            p.ops.push_back(q);
        }
    }
    // faults stop: the last run must succeed
    Op o;
    o.name = "run";
    o.set("i", insts[0]).set("fmt", fmts[0]).set("p", 0).set("o", sols[0]);
    p.ops.push_back(o);
}
static void exec_C12(Ctx& c) {
    put_files(c);
    int              step = 0;
    std::set<string> odd;  // instance files with damaged bytes: what they say is open to interpretation
    for (auto const& o : c.p.ops) {
        ++step;
        if (o.name == "powerloss") {
            fs::lose_unsynced(o.u("seed"));
            continue;
        }
        if (o.name == "rot") {
            string f = o.str("f");
            if (!fs::exists(f))
                continue;
            Rng    r(o.u("seed"));
            string d = content(f);
            fs::put(f, o.i("cut") ? d.substr(0, r.below(d.size() + 1)) : damage(r, d, "1 2 3"));
            rt::fired(rt::K_WARM_DAMAGE);
            if (!o.i("cut"))
                odd.insert(f);
            continue;
        }
        string ip = o.str("i"), fmt = o.str("fmt"), out = o.str("o"), wp = o.str("w");
        // What the files say before the run.
        Ref ref = ref_instance(fmt, content(ip));
        if (odd.count(ip))
            ref.st = REF_UNCLEAR;
        XInst x = ref.x;
        if (ref.st == REF_OK && o.has("u"))
            x = unit_of(x);
        bool ok_inst = ref.st == REF_OK && x.nrows > 0;
        if (ok_inst) {
            std::vector<long long> all;
            for (size_t j = 0; j < x.cols.size(); ++j)
                all.push_back(static_cast<long long>(j));
            string w;
            ok_inst = feasible(x, all, w);
            for (auto v : x.costs)
                ok_inst = ok_inst && v >= 0;
        }
        XSol        ws;
        long double wcost    = -1;
        bool        warm_ok  = true;  // no warm start, or a valid one
        string      w;
        if (!wp.empty()) {
            warm_ok = fs::exists(wp) && ref_solution(content(wp), ws) == REF_OK && ref.st == REF_OK && feasible(x, ws.idxs, w);
            if (warm_ok && ws.idxs.empty())
                warm_ok = false;
            if (warm_ok)
                wcost = exact_cost(x, ws.idxs);
        } else if (ref.has_init) {
            warm_ok = ok_inst && feasible(x, ref.init.idxs, w);
            if (warm_ok)
                wcost = exact_cost(x, ref.init.idxs);
        }
        XParams P = c.par(static_cast<int>(o.i("p")));
        P.seed    = o.u("seed");
        CliSpec s;
        s.fmt     = fmt;
        s.inst    = ip;
        s.out     = out;
        s.warm    = wp;
        s.verbose = static_cast<int>(o.i("v", 0));
        s.unit    = o.has("u");
        rt::Cfg cfg = io_cfg(o);
        cfg.max_ticks = 3000000000ULL;
        fs::Ctl ctl = ctl_of(o);
        if (ctl.disk_cap >= 0)
            for (auto const& f : fs::snapshot())
                if (f.used && f.path != out)
                    ctl.disk_cap += static_cast<int64_t>(f.v.size());
        string x0 = o.str("x", "");
        PRes   base;
        bool   rel = o.has("crash") || o.has("mem") || x0.find('%') != string::npos;
        if (rel) {  // measure the undisturbed run on a copy of the disk
            auto snap = fs::snapshot();
            base      = run_program(c, cli_args(s, P, 0), cfg, fs::Ctl());
            fs::restore(snap);
            if (base.kind == 3)
                fail("endless", strf("step %d %s: accft does not end", step, opstr(o).c_str()));
        }
        if (!x0.empty())
            expiry_cfg(Expiry::parse(x0, base.ticks, base.reads), cfg, s.tl);
        bool clean = ctl.faults.empty() && ctl.disk_cap < 0 && ctl.stdout_cap < 0;
        if (o.has("crash")) {
            uint64_t f = strtoull(o.str("crash").c_str() + 1, nullptr, 10);
            if (o.str("crash")[0] == 't')
                cfg.crash_tick = base.ticks * f / 1000000 + 1;
            else
                cfg.crash_io = base.ios * f / 1000000 + 1;
            clean = false;
        }
        if (o.has("mem")) {
            cfg.alloc_fail_at = base.allocs * o.u("mem") / 1000000 + 1;
            cfg.alloc_sticky  = o.i("sticky") != 0;
            clean             = false;
        }
        uint64_t h0 = hard_write_faults() + rt::sh->stats.fired[rt::K_EIO_READ];
        PRes     r  = run_program(c, cli_args(s, P, 0), cfg, ctl);
        uint64_t h  = hard_write_faults() + rt::sh->stats.fired[rt::K_EIO_READ] - h0;
        string   me = strf("step %d %s", step, opstr(o).c_str());
        if (r.kind == 1) {
            rt::fired(rt::K_RESTART);
            rt::sh->nontrivial += 1;
            continue;
        }
        if (r.kind == 2)
            fail("program-died", me + ": accft ended by " + r.str());
        if (r.kind == 3)
            fail("endless", me + ": accft does not end");
        if (r.code != 0 && r.code != 1)
            fail("odd-exit", me + ": accft ended with " + r.str());
        rt::sh->nontrivial += h > 0 || !warm_ok || r.failed > 0;
        if (r.code == 1) {
            if (r.err.empty())
                fail("silent-failure", me + ": accft failed without a message");
            if (clean && ok_inst && warm_ok)
                fail("no-recovery", me + ": accft failed without a fault: " + r.err.substr(0, 200));
            continue;
        }
        string d = content(out);
        c.note(d);
        XSol t;
        if (d == "\1absent")
            fail("no-file", me + ": accft succeeded without an output file");
        if (ref_solution(d, t) != REF_OK)
            fail("torn-file", me + ": accft succeeded, but the output file holds: " + d.substr(0, 120));
        if (ref.st == REF_BAD)
            fail("broken-instance", me + ": accft succeeded on an instance file that ends early");
        if (ref.st != REF_OK)
            continue;
        string cls;
        if (!check_sol(x, t, cls, w))
            fail(cls, me + ": accft succeeded, but its output is wrong: " + w);
        if (wcost >= 0) {
            long double tol = sums_exact(x) ? 0 : sut_eps() * 8 * static_cast<long double>(ws.idxs.size() + ref.init.idxs.size() + 8) * (wcost + 1);
            if (exact_cost(x, t.idxs) > wcost + tol)
                fail("warm-worsened", strf("%s: warm start of cost %.12Lg, result of cost %.12Lg", me.c_str(), wcost, exact_cost(x, t.idxs)));
        }
    }
}

// --------------------------------------------------------------------------------- C15
static void gen_C15(Rng& r, Plan& p) {
    PlanInst pi  = io_inst(r, 60, 0.08);
    string   fmt = rand_fmt(r);
    XSol     s   = random_cover(r, pi.x);
    bool     ini = fmt == "CVRP" && r.chance(0.5);
    string   ext = r.pick<string>({"", ".txt", ".scp", ".v1.dat"});
    string   n   = "/simfs/inst" + ext;
    add_file(p, n, write_instance(r, fmt, pi.x, ini ? &s : nullptr));
    p.insts.push_back(pi);
    XSol w = random_cover(r, pi.x);
    w.cost = sut_cast(w.cost);
    add_file(p, "/simfs/warm", write_sol_text(r, w));
    int k = static_cast<int>(r.in(1, 4));
    for (int q = 0; q < k; ++q) {
        cli_params(r, p, pi.x);
        auto& P = p.params.back();
        if (r.chance(0.3))
            P.seed = r.next();
        Op o;
        o.name = "run";
        o.set("f", n).set("fmt", fmt).set("p", q).set("args", 1 + (r.next() >> 40)).set("v", r.in(0, 5));
        if (ini)
            o.set("ini", 1);
        if (r.chance(0.4))
            o.set("w", "/simfs/warm");
        if (r.chance(0.3))
            o.set("u", 1);
        uint64_t z = r.below(10);
        if (z < 3)
            o.set("t", r.pick<string>({"1e9", "1000000000", "31536000000", "5e8"}));
        else if (z < 5)
            o.set("t", "0");
        if (r.chance(0.2))
            o.set("noout", 1);
        noise(r, o);
        perturb(r, o, r.chance(0.5) || o.str("t") == "0");
        if (r.chance(0.25)) {
            o.set("x", strf("r:%llu", U(2 + r.below(40))));
            for (auto key : {"rate", "stall_at", "resume_at", "jump_at", "jump", "t", "noise", "eintr"})
                o.kv.erase(key);
        }
        if (o.str("t") == "0")
            o.kv.erase("x");
        p.ops.push_back(o);
    }
}
static void exec_C15(Ctx& c) {
    put_files(c);
    for (auto const& o : c.p.ops) {
        string  fmt = o.str("fmt");
        CliSpec s;
        s.fmt     = fmt;
        s.inst    = o.str("f");
        s.out     = "/simfs/out";
        s.warm    = o.str("w");
        s.verbose = static_cast<int>(o.i("v", 0));
        s.unit    = o.has("u");
        s.tl      = o.str("t");
        if (o.has("noout")) {
            s.out.clear();  // the default name: that of the instance, in the working directory
        }
        string outp = s.out;
        if (outp.empty()) {
            outp = s.inst.substr(7);
            outp = outp.substr(0, outp.rfind('.')) + ".sol";
        }
        fs::erase(outp);
        XParams P   = c.par(static_cast<int>(o.i("p")));
        rt::Cfg cfg = cfg_of(o);
        cfg.max_ticks = 4000000000ULL;
        if (s.tl == "0")
            cfg.rate_ns = 1000;
        // The library: the same instance, and the initial solution as read by the library.
        XSol     init;
        SutInst* si = nullptr;
        Op       none;
        XOut     pr = io_call(c, none, fs::Ctl(), io_cfg(none), [&] { return sut_parse_validated(fmt, s.inst, s.warm, s.unit, &si, init); });
        if (si)
            sut_free_inst(si);
        if (pr.st != XS_OK)
            invalid("the library refuses the files: " + pr.what);
        XInst x = c.inst(0);
        Ref ref = ref_instance(fmt, c.p.files.at(s.inst));
        if (ref.st != REF_OK || !inst_diff(ref.x, x).empty())
            invalid("instance and file differ");
        if (s.unit)
            x = unit_of(x);
        SutInst* li = sut_make_inst(x);
        XRes     lr;
        XParams  L = P;
        L.unit     = s.unit;
        if (!s.tl.empty())
            L.time_limit = strtod(s.tl.c_str(), nullptr);
        rt::Cfg ccfg = cfg;
        string  xs   = o.str("x", "");
        // The program may read the clock a few times more or less than the library before the search starts.
        vector<string> alts{xs};
        if (!xs.empty()) {
            Expiry e = Expiry::parse(xs, 0, 0);
            expiry_cfg(e, ccfg, s.tl);
            if (xs.compare(0, 2, "r:") == 0) {
                long long n = atoll(xs.c_str() + 2);
                for (int d : {-1, 1, -2, 2, -3, 3})
                    if (n + d >= 1)
                        alts.push_back(strf("r:%lld", n + d));
            }
        }
        XSol* wp      = init.idxs.empty() ? nullptr : &init;
        auto  library = [&](string const& y) {
            rt::Cfg lcfg;
            lcfg.max_ticks = 4000000000ULL;
            if (!y.empty()) {
                Expiry e = Expiry::parse(y, 0, 0);
                string tl;
                expiry_cfg(e, lcfg, tl);
                L.time_limit = strtod(tl.c_str(), nullptr);
            }
            XRes res;
            rt::cfg_set(lcfg);
            XOut lo;
            in_sim([&] { lo = sut_run(li, L, wp, res); });
            c.note(sol_str(res.sol));
            if (lo.st != XS_OK)
                fail("error", opstr(o) + ": the library call failed: " + lo.what);
            return res;
        };
        lr = library(xs);
        PRes q = run_program(c, cli_args(s, P, o.u("args", 1)), ccfg, ctl_of(o));
        string line;
        for (auto const& a : cli_args(s, P, o.u("args", 1)))
            line += a + " ";
        if (q.kind != 0 || q.code != 0)
            fail("failed", line + ": accft ended with " + q.str() + ": " + q.err.substr(0, 200));
        string d = content(outp);
        c.note(d);
        XSol t;
        if (ref_solution(d, t) != REF_OK)
            fail("no-solution", line + ": the output file " + outp + " is " + d.substr(0, 100));
        rt::sh->nontrivial += 1;
        bool same = t.idxs == lr.sol.idxs && t.cost == lr.sol.cost;
        for (size_t a = 1; a < alts.size() && !same; ++a) {
            XRes r2 = library(alts[a]);
            same    = t.idxs == r2.sol.idxs && t.cost == r2.sol.cost;
        }
        sut_free_inst(li);
        if (!same)
            fail("differs", line + ": accft wrote " + sol_str(t).substr(0, 200) + ", the library returns " + sol_str(lr.sol).substr(0, 200));
        size_t at = q.out.rfind("Best solution ");
        if (at != string::npos) {
            string got = q.out.substr(at + 14);
            got        = got.substr(0, got.find(' '));
            string want = strf("%.2Lf", t.cost);
            rt::probe(6);
            if (got != want) {
                char*       e = nullptr;
                long double g = strtold(got.c_str(), &e);
                if (*e || std::fabs(g - t.cost) > 0.0051L + sut_eps() * std::fabs(t.cost))
                    fail("wrong-print", line + ": printed best cost " + got + ", written cost " + want);
            }
        }
    }
}

// ------------------------------------------------------------------ C08 (files and program)
void gen_C08_io(Rng& r, Plan& p) {
    PlanInst pi  = io_inst(r, 50, 0.05);
    string   fmt = rand_fmt(r);
    XSol     s   = random_cover(r, pi.x);
    add_file(p, "/simfs/inst", write_instance(r, fmt, pi.x, r.chance(0.5) ? &s : nullptr));
    XSol w = random_cover(r, pi.x);
    w.cost = sut_cast(w.cost);
    add_file(p, "/simfs/warm", write_sol_text(r, w));
    cli_params(r, p, pi.x);
    int n = static_cast<int>(r.in(3, 9));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = r.pick<string>({"parse", "parse", "solution", "write", "program", "program", "program"});
        o.set("fmt", fmt);
        if (r.chance(0.4))
            o.set("w", 1);
        if (o.name == "write")
            o.set("n", r.pick<uint64_t>({0, 3, 100, 2000, 9000}));
        if (r.chance(0.5))
            o.set("k", strf("a:%llu", U(1 + r.below(o.name == "program" ? 80 : 25))));
        else
            o.set("k", strf("a%%%llu", U(r.below(1000000))));
        if (r.chance(0.4))
            o.set("sticky", 1);
        if (r.chance(0.2) && o.name == "program")
            o.set("v", r.in(1, 5));
        p.ops.push_back(o);
    }
}
void exec_C08_io(Ctx& c, Op const& o) {
    put_files(c);
    string  fmt = o.str("fmt");
    XSol    init;
    Op      none;
    auto    show = [&](SutInst* si) {
        string t = sol_str(init);
        if (si) {
            t += inst_str(sut_get_inst(si));
            sut_free_inst(si);
        }
        return t;
    };
    if (o.name == "program") {
        XParams P = c.par(0);
        CliSpec s;
        s.fmt     = fmt;
        s.inst    = "/simfs/inst";
        s.out     = "/simfs/out";
        s.warm    = o.has("w") ? "/simfs/warm" : "";
        s.verbose = static_cast<int>(o.i("v", 0));
        rt::Cfg cfg;
        PRes    b = run_program(c, cli_args(s, P, 0), cfg, fs::Ctl());
        if (b.kind || b.code)
            fail("error", "undisturbed run of accft: " + b.str() + " " + b.err.substr(0, 200));
        string want = content(s.out);
        fs::erase(s.out);
        cfg.alloc_fail_at = Expiry::parse(o.str("k", "a:1"), b.allocs, 0).at;
        cfg.alloc_sticky  = o.has("sticky");
        PRes q            = run_program(c, cli_args(s, P, 0), cfg, fs::Ctl());
        if (q.kind == 2)
            fail("program-died", opstr(o) + ": accft ended by " + q.str());
        if (q.kind == 3)
            fail("endless", opstr(o) + ": accft does not end");
        if (q.code == 0) {
            if (content(s.out) != want)
                fail("wrong-result", opstr(o) + ": accft succeeded, but wrote " + content(s.out).substr(0, 200) + " instead of " + want.substr(0, 200));
            if (q.failed)
                rt::probe(5);
        } else {
            rt::sh->nontrivial += 1;
            if (q.code != 1)
                fail("odd-exit", opstr(o) + ": accft ended with " + q.str());
            if (q.err.empty())
                fail("silent-failure", opstr(o) + ": accft failed without a message");
        }
        fs::erase(s.out);
        PRes z = run_program(c, cli_args(s, P, 0), rt::Cfg(), fs::Ctl());
        if (z.kind || z.code || content(s.out) != want)
            fail("aftermath", opstr(o) + ": accft run again with memory available: " + z.str());
        return;
    }
    auto once = [&](rt::Cfg const& cfg, string& text, uint64_t* allocs, uint64_t* live) {
        SutInst* si = nullptr;
        init        = XSol();
        uint64_t l0 = rt::live_count();
        XSol     ws;
        for (uint64_t k = 0; k < o.u("n"); ++k)
            ws.idxs.push_back(static_cast<long long>(k % 20000));
        ws.cost = 12;
        XOut r;
        bool w = o.name == "write";
        r      = io_call(c, o, fs::Ctl(), cfg, [&] {
            if (w)
                return sut_write_solution("/simfs/out", ws);
            if (o.name == "solution")
                return sut_parse_solution("/simfs/warm", init);
            if (o.has("w"))
                return sut_parse_validated(fmt, "/simfs/inst", "/simfs/warm", false, &si, init);
            return sut_parse(fmt, "/simfs/inst", &si, init);
        });
        if (allocs)
            *allocs = rt::counters().allocs;
        text = w ? (r.st == XS_OK ? content("/simfs/out") : string()) : show(si);
        if (live)
            *live = rt::live_count() - l0;
        return r;
    };
    string   want, got;
    uint64_t allocs = 0;
    XOut     b      = once(io_cfg(none), want, &allocs, nullptr);
    if (b.st != XS_OK)
        fail("error", opstr(o) + ": undisturbed call failed: " + b.what);
    rt::Cfg cfg       = io_cfg(none);
    cfg.alloc_fail_at = Expiry::parse(o.str("k", "a:1"), allocs, 0).at;
    cfg.alloc_sticky  = o.has("sticky");
    XOut r            = once(cfg, got, nullptr, nullptr);
    if (r.st == XS_OK) {
        if (got != want)
            fail("wrong-result", opstr(o) + ": the call succeeded with another result than without the failure");
    } else {
        rt::sh->nontrivial += 1;
        uint64_t l0 = rt::live_count();
        for (int k = 0; k < 4; ++k)
            once(cfg, got, nullptr, nullptr);
        if (rt::live_count() > l0 + 3)
            fail("leak", strf("%s: %llu blocks lost in 4 identical failing calls", opstr(o).c_str(), U(rt::live_count() - l0)));
    }
    XOut z = once(io_cfg(none), got, nullptr, nullptr);
    if (z.st != XS_OK || got != want)
        fail("aftermath", opstr(o) + ": the call repeated with memory available differs");
}

// The part of C17 with files and programs.
void gen_C17_io(Rng& r, Plan& p) {
    PlanInst pi  = io_inst(r, 60, 0.05);
    string   fmt = rand_fmt(r);
    XSol     s   = random_cover(r, pi.x);
    string   text = write_instance(r, fmt, pi.x, r.chance(0.5) ? &s : nullptr);
    if (fmt == "MPS") {  // the assertions of the reader want coefficients written "1"
        auto space = [&](size_t i) { return i < text.size() && isspace(static_cast<unsigned char>(text[i])); };
        for (size_t at = 1; (at = text.find("1.0", at)) != string::npos; ++at)
            if (space(at - 1) && space(at + 3))
                text.erase(at + 1, 2);
    }
    add_file(p, "/simfs/inst", text);
    XSol w = random_cover(r, pi.x);
    w.cost = sut_cast(w.cost);
    add_file(p, "/simfs/warm", write_sol_text(r, w));
    cli_params(r, p, pi.x);
    int n = static_cast<int>(r.in(2, 5));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = r.pick<string>({"read", "read", "solution", "program", "program"});
        o.set("fmt", fmt);
        if (o.name == "program") {
            o.set("v", r.in(0, 5)).set("args", 1 + (r.next() >> 40));
            if (r.chance(0.4))
                o.set("x", r.chance(0.3) ? string("s:1") : strf("r:%llu", U(2 + r.below(40))));
            if (r.chance(0.2))
                o.set("u", 1);
        }
        if (o.name == "read" && r.chance(0.5))
            o.set("val", 1);
        if (o.name != "solution" && r.chance(0.4))
            o.set("w", 1);
        noise(r, o);
        p.ops.push_back(o);
    }
}
void exec_C17_io(Ctx& c, Op const& o) {
    string fmt = o.str("fmt"), warm = o.has("w") ? "/simfs/warm" : "";
    put_files(c);
    if (!c.p.files.count("/simfs/inst") || !c.p.files.count("/simfs/warm"))
        invalid("no file");
    string res[2];
    if (o.name == "program") {
        for (int d = 0; d < 2; ++d) {
            CliSpec s;
            s.fmt     = fmt;
            s.inst    = "/simfs/inst";
            s.out     = "/simfs/out";
            s.warm    = warm;
            s.verbose = static_cast<int>(o.i("v"));
            s.unit    = o.has("u");
            rt::Cfg cfg;
            cfg.max_ticks = 20000000000ULL;
            expiry_cfg(Expiry::parse(o.str("x"), 0, 0), cfg, s.tl);
            fs::erase(s.out);
            c.debug = d;
            PRes r  = run_program(c, cli_args(s, c.par(0), o.u("args", 1)), cfg, ctl_of(o));
            c.debug = false;
            if (r.kind == 3)
                fail("endless", opstr(o) + ": the program did not end");
            res[d]  = strf("kind %d exit %d wrote ", r.kind, r.code) + content(s.out);
        }
    } else
        for (int d = 0; d < 2; ++d) {
            XSol              init;
            SutInst*          si = nullptr;
            dbg::SutInst*     di = nullptr;
            string const      f  = "/simfs/inst";
            XOut r = io_call(c, o, ctl_of(o), io_cfg(o), [&] {
                if (o.name == "solution")
                    return d ? dbg::sut_parse_solution("/simfs/warm", init) : sut_parse_solution("/simfs/warm", init);
                if (o.has("val"))
                    return d ? dbg::sut_parse_validated(fmt, f, warm, false, &di, init) : sut_parse_validated(fmt, f, warm, false, &si, init);
                return d ? dbg::sut_parse(fmt, f, &di, init) : sut_parse(fmt, f, &si, init);
            });
            res[d] = strf("status %d %s ", static_cast<int>(r.st), r.what.c_str()) + sol_str(init);
            if (si) {
                res[d] += inst_str(sut_get_inst(si));
                sut_free_inst(si);
            }
            if (di) {
                res[d] += inst_str(dbg::sut_get_inst(di));
                dbg::sut_free_inst(di);
            }
        }
    c.note(res[0]);
    c.note(res[1]);
    rt::sh->nontrivial += 1;
    if (res[0] != res[1]) {
        size_t k = 0;
        while (k < res[0].size() && k < res[1].size() && res[0][k] == res[1][k])
            ++k;
        k = k < 60 ? 0 : k - 60;
        fail("differs", opstr(o) + ": the build with assertions gives ..." + res[1].substr(k, 200) + ", the build without ..." + res[0].substr(k, 200));
    }
}
// The part of C18 with files.
uint64_t mem_size(XInst const& x);
uint64_t mem_allowed(XInst const& x);
void     gen_C18_io(Rng& r, Plan& p) {
    PlanInst pi  = io_inst(r, 140, 0.15, 0.002);
    string   fmt = rand_fmt(r);
    XSol     s   = random_cover(r, pi.x);
    add_file(p, "/simfs/inst", write_instance(r, fmt, pi.x, r.chance(0.5) ? &s : nullptr));
    XSol w = random_cover(r, pi.x);
    w.cost = sut_cast(w.cost);
    add_file(p, "/simfs/warm", write_sol_text(r, w));
    int n = static_cast<int>(r.in(2, 4));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.name = "read";
        o.set("fmt", fmt);
        if (r.chance(0.5))
            o.set("val", 1);
        if (r.chance(0.4))
            o.set("w", 1);
        noise(r, o);
        p.ops.push_back(o);
    }
}
void exec_C18_io(Ctx& c, Op const& o) {
    string fmt = o.str("fmt");
    put_files(c);
    if (!c.p.files.count("/simfs/inst"))
        invalid("no file");
    XSol     init;
    SutInst* si = nullptr;
    uint64_t peak = 0;
    XOut     r  = io_call(c, o, ctl_of(o), io_cfg(o), [&] {
        XOut t = o.has("val") ? sut_parse_validated(fmt, "/simfs/inst", o.has("w") ? "/simfs/warm" : "", false, &si, init)
                              : sut_parse(fmt, "/simfs/inst", &si, init);
        peak   = rt::counters().peak_bytes;
        return t;
    });
    if (r.st != XS_OK || !si)
        invalid("not read");
    XInst x = sut_get_inst(si);
    sut_free_inst(si);
    uint64_t lim = mem_allowed(x) + 4 * c.p.files.at("/simfs/inst").size();
    rt::sh->probes[25] = std::max(rt::sh->probes[25], 1000 * peak / lim);
    rt::sh->nontrivial += 1;
    if (peak > lim)
        fail("too-much-memory", opstr(o) + strf(": %llu bytes in use at a time to read %llu nonzeros, rows and columns", U(peak), U(mem_size(x))));
}
void register_io(std::map<std::string, Check>& m) {
    m["C09"] = {gen_C09, exec_C09};
    m["C10"] = {gen_C10, exec_C10};
    m["C11"] = {gen_C11, exec_C11};
    m["C12"] = {gen_C12, exec_C12};
    m["C15"] = {gen_C15, exec_C15};
}
