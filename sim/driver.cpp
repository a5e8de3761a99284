// gen PROP SEED            print the plan of one seed
// exec FILE [--expand]     execute a plan: exit 0 ok, 1 violation, 3 invalid plan / harness error
// batch PROP FIRST COUNT STRIDE SECONDS   many seeds, one forked process each
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include "harness.h"

static std::map<std::string, Check> checks;
static std::vector<std::string>     g_expanded;

static double mono() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}
static Plan gen(std::string const& prop, uint64_t seed) {
    Plan p;
    p.prop = prop;
    p.var  = dbg::sut_variant ? dbg::sut_variant() : sut_variant();
    p.seed = seed;
    Rng r(rt::mix(hstr(prop), seed));
    checks.at(prop).gen(r, p);
    return p;
}
static void set(int st, std::string const& cls, std::string const& msg) {
    rt::sh->status = st;
    snprintf(rt::sh->cls, sizeof rt::sh->cls, "%s", cls.c_str());
    snprintf(rt::sh->msg, sizeof rt::sh->msg, "%s", msg.c_str());
}
static void child(Plan const& p, int outfd, bool expand) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit lim{0, 0};
    setrlimit(RLIMIT_CORE, &lim);
#ifndef SIM_ASAN
    rlimit as{6ULL << 30, 6ULL << 30};
    as.rlim_cur = as.rlim_max = (1ULL << 36) + (6ULL << 30);
    setrlimit(RLIMIT_AS, &as);
#endif
    rt::guard_start(230);
    Ctx c(p);
    c.expand = expand;
    try {
        checks.at(p.prop).exec(c);
        set(0, "", "");
    } catch (Violation const& v) {
        set(1, v.cls, v.msg);
        c.note(v.cls + v.msg);
    } catch (Invalid const& v) {
        set(2, "invalid", v.msg);
    }
    rt::cfg_set(rt::Cfg());
    rt::sh->hash = c.h;
    rt::sh->sig  = c.sig;
    if (expand)
        for (auto const& s : c.expanded) {
            std::string l = "expand " + s + "\n";
            if (write(outfd, l.data(), l.size()) < 0)
                _exit(3);
        }
    rt::sh->done = 1;
    _exit(0);
}
// Executes the plan in a child process; fills the shared block.
static void run_plan(Plan const& p, bool expand) {
    auto& s = *rt::sh;
    s.done = s.status = s.hang = s.crashed = 0;
    s.cls[0] = s.msg[0] = 0;
    s.hash = s.sig = s.hang_tick = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
        child(p, 1, expand);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s.done)
        return;
    if (s.hang) {
        set(1, s.hang == 2 ? "deadlock" : "endless",
            s.hang == 2 ? "all threads are blocked"
                        : strf("still running after %llu steps", static_cast<unsigned long long>(s.hang_tick)));
        s.hash = rt::mix(77, s.hang_tick);
        return;
    }
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL)
            set(3, "killed", "child killed (memory?)");
        else
            set(1, strf("signal-%d", sg), strf("the process died from signal %d (%s)", sg, strsignal(sg)));
        s.hash = rt::mix(78, static_cast<uint64_t>(sg));
        return;
    }
    int ec = WEXITSTATUS(st);
    if (ec == rt::EXIT_SLOW)
        set(2, "slow", "left out: too much work for this machine");
    else if (ec == rt::EXIT_ASSERT) {
        set(1, strf("assertion-%04llx", static_cast<unsigned long long>(hstr(s.msg) & 0xffff)), std::string(s.msg));
        s.hash = hstr(s.msg);
    } else if (ec == 77) {
        set(1, "sanitizer", "sanitizer or library assertion report (see stderr)");
        s.hash = 79;
    } else
        set(3, "harness", strf("child ended with status %d", ec));
}
static int exec_file(std::string const& path, bool expand) {
    std::ifstream     f(path);
    std::stringstream b;
    b << f.rdbuf();
    Plan        p;
    std::string err;
    if (!f || !Plan::parse(b.str(), p, err)) {
        printf("INVALID %s\n", err.c_str());
        return 3;
    }
    if (!checks.count(p.prop)) {
        printf("INVALID unknown property\n");
        return 3;
    }
    run_plan(p, expand);
    auto const& s = *rt::sh;
    printf("status %d\nclass %s\nhash %016llx\nticks %llu\n", s.status, s.cls, static_cast<unsigned long long>(s.hash),
           static_cast<unsigned long long>(s.stats.ticks));
    std::string m = s.msg;
    if (getenv("SIM_SHOW"))
        fprintf(stderr, "%.*s\n%.*s\n", static_cast<int>(s.out_len), s.out, static_cast<int>(s.err_len), s.err);
    printf("message %s\n", m.c_str());
    return s.status == 1 ? 1 : s.status == 0 ? 0 : 3;
}
static void one_line(char* s) {
    for (; *s; ++s)
        if (*s == '\n' || *s == '\t')
            *s = ' ';
}
static int batch(std::string const& prop, uint64_t first, uint64_t count, uint64_t stride, double secs) {
    double   t0 = mono();
    uint64_t n = 0, bad = 0;
    for (uint64_t k = 0; k < count; ++k) {
        if (mono() - t0 > secs)
            break;
        uint64_t    seed = first + k * stride;
        Plan        g = gen(prop, seed), p;
        std::string err, txt = g.text();
        if (!Plan::parse(txt, p, err)) {
            printf("R %llu 3 genfail 0 0 %s\n", static_cast<unsigned long long>(seed), err.c_str());
            continue;
        }
        uint64_t nt0 = rt::sh->nontrivial;
        run_plan(p, false);
        auto& s = *rt::sh;
        one_line(s.msg);
        printf("R %llu %d %s %016llx %016llx %llu %s\n", static_cast<unsigned long long>(seed), s.status,
               s.cls[0] ? s.cls : "-", static_cast<unsigned long long>(s.hash), static_cast<unsigned long long>(s.sig),
               static_cast<unsigned long long>(s.nontrivial - nt0), s.status ? s.msg : "");
        ++n;
        if (s.status == 1 && ++bad >= 3)
            break;
    }
    auto const& st = rt::sh->stats;
    printf("S runs %llu\nS calls %llu\nS ticks %llu\nS sim_ns %llu\nS clock_reads %llu\nS allocs %llu\nS preempts %llu\nS io_ops %llu\nS edges %u\n",
           static_cast<unsigned long long>(n), static_cast<unsigned long long>(st.sut_calls), static_cast<unsigned long long>(st.ticks),
           static_cast<unsigned long long>(st.sim_ns), static_cast<unsigned long long>(st.clock_reads),
           static_cast<unsigned long long>(st.allocs), static_cast<unsigned long long>(st.preempts),
           static_cast<unsigned long long>(st.io_ops), rt::edges_total());
    for (int k = 0; k < rt::K_NUM; ++k)
        if (st.fired[k])
            printf("F %s %llu\n", rt::kind_name[k], static_cast<unsigned long long>(st.fired[k]));
    for (int k = 0; k < 32; ++k)
        if (rt::sh->probes[k])
            printf("P %d %llu\n", k, static_cast<unsigned long long>(rt::sh->probes[k]));
    printf("E\n");
    return 0;
}
int main(int argc, char** argv) {
    if (!getenv("SIM_NORAND")) {
        int old = personality(0xffffffff);
        if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(old) | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NORAND", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    rt::init_shared();
    register_lib(checks);
    register_io(checks);
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "gen" && argc == 4) {
        std::cout << gen(argv[2], strtoull(argv[3], nullptr, 10)).text();
        return 0;
    }
    if (m == "exec" && argc >= 3)
        return exec_file(argv[2], argc > 3 && std::string(argv[3]) == "--expand");
    if (m == "batch" && argc == 7)
        return batch(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10),
                     strtod(argv[6], nullptr));
    fprintf(stderr, "usage: gen PROP SEED | exec FILE [--expand] | batch PROP FIRST COUNT STRIDE SECONDS\n");
    return 3;
}
