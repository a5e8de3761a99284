#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <new>
#include <random>

namespace rt {

char const* const kind_name[K_NUM] = {
    "time_limit_expiry_at_tick", "time_limit_expiry_between_clock_reads", "time_limit_already_expired",
    "clock_stall", "clock_jump_forward", "wall_clock_jump", "clock_rate_change", "allocation_failure_once",
    "allocation_failure_persistent", "memory_cap", "heap_garbage", "address_perturbation",
    "stack_garbage", "preemption", "short_read", "eintr_read", "eio_read", "truncated_file",
    "damaged_bytes", "disk_full", "eio_write", "short_write", "eintr_write", "close_error",
    "open_failure", "crash_at_tick", "crash_at_io", "lost_unsynced_data", "stdout_failure",
    "damaged_warm_start", "process_restart"};

Shared* sh = nullptr;

uint64_t fnv(uint64_t h, void const* p, size_t n) {
    auto b = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a + 0x9E3779B97F4A7C15ULL * (b + 1);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

void init_shared() {
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (sh == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
}

// ------------------------------------------------------------------------------- global state
static __thread int      t_active = 0;
static __thread uint32_t t_prev   = 0;

struct G {
    uint64_t ticks = 0, next_ev = ~0ULL;
    Cfg      cfg;
    // clock
    int64_t  clk_ns = 0;
    uint64_t clk_tick = 0;
    int64_t  rate = 1000;
    int64_t  wall_off = 0;
    uint64_t reads = 0;
    // alloc
    uint64_t allocs = 0, failed = 0, live_n = 0, live_b = 0, ahash = 0, arng = 0, eng = 0;
    // io
    uint64_t base_b = 0, peak_b = 0, first_exp = 0;
    uint64_t io_ops = 0;
    // threads
    bool     multi = false;
    uint64_t switch_tick = ~0ULL;
    char const* corrupted = nullptr;
};
static G g;
static uint8_t g_map[1 << 16];

static void recompute_next() {
    uint64_t n = g.cfg.max_ticks;
    for (auto const& e : g.cfg.clock_evs)
        if (e.on == 0 && e.at < n)
            n = e.at;
    if (g.cfg.crash_tick && g.cfg.crash_tick < n)
        n = g.cfg.crash_tick;
    if (g.switch_tick < n)
        n = g.switch_tick;
    g.next_ev = n;
}

static int64_t steady_ns() {
    return g.clk_ns + static_cast<int64_t>(g.ticks - g.clk_tick) * g.rate;
}

static void apply_clock(ClockEv const& e) {
    g.clk_ns   = steady_ns();
    g.clk_tick = g.ticks;
    if (e.what == 0)
        g.clk_ns += e.val;
    else if (e.what == 1)
        g.rate = e.val;
    else
        g.wall_off += e.val;
    if (!g.first_exp && (e.kind == K_EXPIRE_TICK || e.kind == K_EXPIRE_READ || e.kind == K_EXPIRE_START))
        g.first_exp = g.ticks;
    if (e.kind >= 0)
        fired(static_cast<Kind>(e.kind));
}

static void sim_crash(char const* why) {
    sh->crashed = 1;
    snprintf(sh->crash_note, sizeof sh->crash_note, "%s tick=%llu io=%llu", why,
             static_cast<unsigned long long>(g.ticks), static_cast<unsigned long long>(g.io_ops));
    sh->stats.ticks += g.ticks;
    _exit(99);
}

static void maybe_switch();

static volatile int      guard_left = 0, guard_still = 0, guard_off = 0;
static volatile uint64_t guard_seen = 0;
static constexpr int     GUARD_STEP = 10;
static void guard_tick(int) {
    uint64_t t = g.ticks + sh->stats.ticks + sh->stats.sut_calls;
    guard_left = guard_left - GUARD_STEP;
    if (guard_off || t != guard_seen)
        guard_still = 0;
    else
        guard_still = guard_still + 1;
    guard_seen = t;
    if (guard_still * GUARD_STEP >= 120) {
        sh->hang      = 1;
        sh->hang_tick = g.ticks;
        sh->stats.ticks += g.ticks;
        _exit(98);
    }
    if (guard_left <= 0)
        _exit(EXIT_SLOW);
}
void guard_start(int secs) {
    guard_left  = secs;
    guard_still = 0;
    guard_off   = 0;
    struct sigaction sa = {};
    sa.sa_handler       = guard_tick;
    sa.sa_flags         = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval it = {{GUARD_STEP, 0}, {GUARD_STEP, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
}
void guard_pause(bool on) {
    guard_off = on;
}

static void __attribute__((noinline)) slow_event() {
    if (g.ticks >= g.cfg.max_ticks) {
        sh->hang      = 1;
        sh->hang_tick = g.ticks;
        sh->stats.ticks += g.ticks;
        _exit(98);
    }
    if (g.cfg.crash_tick && g.ticks >= g.cfg.crash_tick) {
        fired(K_CRASH_TICK);
        sim_crash("crash at tick");
    }
    auto& ev = g.cfg.clock_evs;
    for (size_t i = 0; i < ev.size();)
        if (ev[i].on == 0 && ev[i].at <= g.ticks) {
            ClockEv e = ev[i];
            ev.erase(ev.begin() + static_cast<long>(i));
            apply_clock(e);
        } else
            ++i;
    if (g.multi && g.ticks >= g.switch_tick)
        maybe_switch();
    recompute_next();
}

void cfg_set(Cfg const& c) {
    // account for the previous run
    if (sh) {
        sh->stats.ticks += g.ticks;
        sh->stats.allocs += g.allocs;
        sh->stats.clock_reads += g.reads;
        int64_t dt = steady_ns() - g.cfg.base_ns;
        if (dt > 0 && g.ticks)
            sh->stats.sim_ns += static_cast<uint64_t>(dt);
        unsigned n = 0;
        for (unsigned i = 0; i < sizeof g_map; ++i)
            if (g_map[i]) {
                sh->edge_seen[i] = 1;
                ++n;
            }
        (void)n;
    }
    memset(g_map, 0, sizeof g_map);
    g.cfg = c;
    g.cfg.clock_evs.reserve(c.clock_evs.size() + 1);
    g.ticks = 0;
    g.clk_ns   = c.base_ns;
    g.clk_tick = 0;
    g.rate     = c.rate_ns;
    g.wall_off = 0;
    g.reads    = 0;
    g.first_exp = 0;
    g.base_b = g.peak_b = g.live_b;
    g.allocs = g.failed = 0;
    g.ahash  = 1469598103934665603ULL;
    g.arng   = c.addr_seed;
    g.eng    = c.addr_seed * 7 + 12345;
    t_prev   = 0;
    recompute_next();
}
void enter() {
    if (t_active++ == 0)
        ++sh->stats.sut_calls;
}
void leave() {
    --t_active;
}
Pause::Pause() : d(t_active) {
    t_active = 0;
}
Pause::~Pause() {
    t_active = d;
}
Counters counters() {
    Counters c{};
    c.ticks        = g.ticks;
    c.clock_reads  = g.reads;
    c.allocs       = g.allocs;
    c.sim_ns       = steady_ns();
    c.alloc_failed = g.failed;
    c.live_count   = g.live_n;
    c.live_bytes   = g.live_b;
    c.alloc_hash   = g.ahash;
    c.base_bytes   = g.base_b;
    c.peak_bytes   = g.peak_b - g.base_b;
    c.first_expire_tick = g.first_exp;
    return c;
}
uint64_t live_count() {
    return g.live_n;
}
uint64_t edge_signature() {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned i = 0; i < sizeof g_map; ++i)
        if (g_map[i]) {
            uint32_t v = (i << 8) | static_cast<uint32_t>(32 - __builtin_clz(g_map[i]));
            h          = (h ^ v) * 1099511628211ULL;
        }
    return h;
}
unsigned edges_total() {
    unsigned n = 0;
    for (unsigned i = 0; i < sizeof g_map; ++i)
        n += sh->edge_seen[i];
    return n;
}
bool heap_corrupted(char const** what) {
    if (what)
        *what = g.corrupted;
    return g.corrupted != nullptr;
}

// --------------------------------------------------------------------------------- fresh stack
static char*      g_stack = nullptr;
static size_t     g_stack_sz = 8u << 20;
static ucontext_t g_main_ctx, g_fn_ctx;
static void (*g_fn)(void*);
static void* g_fn_arg;
static void  tramp() {
    g_fn(g_fn_arg);
}
void on_fresh_stack(void (*fn)(void*), void* arg) {
#ifdef SIM_ASAN
    fn(arg);
#else
    if (!g_stack) {
        g_stack = static_cast<char*>(mmap(reinterpret_cast<void*>(0x300000000000ULL), g_stack_sz,
                                          PROT_READ | PROT_WRITE,
                                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                                          -1, 0));
        if (g_stack == MAP_FAILED)
            _exit(3);
    }
    size_t   top = 96u << 10;
    char*    p   = g_stack + g_stack_sz - top;
    if (g.cfg.stack_fill >= 0)
        memset(p, g.cfg.stack_fill, top);
    else {
        uint64_t r = mix(g.cfg.addr_seed, 77);
        for (size_t i = 0; i < top; i += 8) {
            r = r * 6364136223846793005ULL + 1442695040888963407ULL;
            memcpy(p + i, &r, 8);
        }
    }
    getcontext(&g_fn_ctx);
    g_fn_ctx.uc_stack.ss_sp   = g_stack;
    g_fn_ctx.uc_stack.ss_size = g_stack_sz;
    g_fn_ctx.uc_link          = &g_main_ctx;
    g_fn                      = fn;
    g_fn_arg                  = arg;
    makecontext(&g_fn_ctx, tramp, 0);
    swapcontext(&g_main_ctx, &g_fn_ctx);
#endif
}

// ----------------------------------------------------------------------------------- heap
static uint64_t lcg(uint64_t& s) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    return s >> 33;
}
// Decides whether the current allocation fails. Counts it.
static bool alloc_should_fail(size_t sz) {
    ++g.allocs;
    g.ahash = (g.ahash ^ sz) * 1099511628211ULL;
    bool fail = false;
    if (g.cfg.alloc_fail_at && g.allocs == g.cfg.alloc_fail_at) {
        fail = true;
        fired(g.cfg.alloc_sticky ? K_ALLOC_STICKY : K_ALLOC_ONCE);
    } else if (g.cfg.alloc_fail_at && g.cfg.alloc_sticky && g.allocs > g.cfg.alloc_fail_at)
        fail = true;
    if (!fail && g.cfg.mem_cap && g.live_b + sz > g.cfg.mem_cap) {
        fail = true;
        fired(K_MEM_CAP);
    }
    if (!fail && sz > g.cfg.max_alloc)
        fail = true;  // more than the simulated machine has
    if (fail)
        ++g.failed;
    return fail;
}

#ifndef SIM_ASAN
static char* const ARENA    = reinterpret_cast<char*>(0x200000000000ULL);
static size_t const ARENA_SZ = 1ULL << 35;
static char*  a_bump = nullptr;
static size_t const NCLS = 128;
struct Free { Free* next; };
static Free* a_free[NCLS];
struct Hdr {
    uint64_t size;   // user size
    uint32_t cls;
    uint32_t pad;    // bytes before the header
    uint64_t magic;
    uint64_t spare;
};
static_assert(sizeof(Hdr) == 32, "");
static uint64_t const MAGIC = 0xA110CA7EDBEEF001ULL, FREED = 0xDEADF4EEDEADF4EEULL;
static uint64_t const TAIL  = 0x7A11C0DE7A11C0DEULL;

static size_t cls_of(size_t total, size_t& cap) {
    if (total <= 1024) {
        size_t c = (total + 15) / 16;
        cap      = c * 16;
        return c;  // 1..64
    }
    // powers of two and 1.5 times them
    size_t p = 1024, c = 64;
    for (;;) {
        ++c;
        if (total <= p + p / 2) {
            cap = p + p / 2;
            return c;
        }
        ++c;
        p *= 2;
        if (total <= p) {
            cap = p;
            return c;
        }
    }
}

static bool in_arena(void const* p) {
    return static_cast<char const*>(p) >= ARENA && static_cast<char const*>(p) < ARENA + ARENA_SZ;
}
static void fill_mem(void* p, size_t n) {
    if (g.cfg.fill >= 0) {
        memset(p, g.cfg.fill, n);
        return;
    }
    auto b = static_cast<char*>(p);
    for (size_t i = 0; i < n; i += 8) {
        uint64_t r = lcg(g.eng) * 0x9E3779B97F4A7C15ULL;
        memcpy(b + i, &r, n - i < 8 ? n - i : 8);
    }
}
static void* arena_alloc(size_t sz) {
    if (!a_bump) {
        void* m = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m != ARENA)
            _exit(3);
        a_bump = ARENA;
    }
    size_t cap, need = sizeof(Hdr) + sz + 8;
    size_t c   = cls_of(need, cap);
    char*  raw = nullptr;
    bool   use_free = true;
    uint32_t pad = 0;
    if (g.cfg.addr_seed) {
        use_free = lcg(g.arng) % 3 != 0;
        pad      = static_cast<uint32_t>(lcg(g.arng) % 40 * 16);
    }
    if (use_free && a_free[c]) {
        raw       = reinterpret_cast<char*>(a_free[c]);
        a_free[c] = a_free[c]->next;
        pad       = 0;
    } else {
        a_bump += pad;
        raw = a_bump;
        a_bump += cap;
        if (a_bump > ARENA + ARENA_SZ)
            return nullptr;
    }
    auto h   = reinterpret_cast<Hdr*>(raw);
    h->size  = sz;
    h->cls   = static_cast<uint32_t>(c);
    h->pad   = pad;
    h->magic = MAGIC;
    char* u  = raw + sizeof(Hdr);
    fill_mem(u, sz);
    uint64_t tail = TAIL;
    memcpy(u + sz, &tail, 8);
    ++g.live_n;
    g.live_b += sz;
    if (g.live_b > g.peak_b)
        g.peak_b = g.live_b;
    return u;
}
static void arena_free(void* p) {
    auto h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - sizeof(Hdr));
    if (h->magic != MAGIC) {
        g.corrupted = h->magic == FREED ? "double free" : "bad free or heap underflow";
        return;
    }
    uint64_t tail;
    memcpy(&tail, static_cast<char*>(p) + h->size, 8);
    if (tail != TAIL) {
        g.corrupted = "heap overflow";
    }
    --g.live_n;
    g.live_b -= h->size;
    size_t n = h->size < 4096 ? h->size : 4096;
    memset(p, 0xDD, n);
    h->magic = FREED;
    auto f    = reinterpret_cast<Free*>(h);
    size_t c  = h->cls;
    f->next   = a_free[c];
    a_free[c] = f;
}
#endif

static void* sim_new(size_t sz, bool nothrow) {
    if (t_active) {
        if (alloc_should_fail(sz)) {
            if (nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
#ifndef SIM_ASAN
        void* p = arena_alloc(sz);
        if (!p)
            throw std::bad_alloc();
        return p;
#endif
    }
    void* p = malloc(sz ? sz : 1);
    if (!p) {
        if (nothrow)
            return nullptr;
        throw std::bad_alloc();
    }
    return p;
}
static void sim_delete(void* p) {
    if (!p)
        return;
#ifndef SIM_ASAN
    if (in_arena(p)) {
        arena_free(p);
        return;
    }
#endif
    free(p);
}
}  // namespace rt

void* operator new(size_t sz) { return rt::sim_new(sz, false); }
void* operator new[](size_t sz) { return rt::sim_new(sz, false); }
void* operator new(size_t sz, std::nothrow_t const&) noexcept {
    try { return rt::sim_new(sz, true); } catch (...) { return nullptr; }
}
void* operator new[](size_t sz, std::nothrow_t const&) noexcept {
    try { return rt::sim_new(sz, true); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { rt::sim_delete(p); }
void operator delete[](void* p) noexcept { rt::sim_delete(p); }
void operator delete(void* p, size_t) noexcept { rt::sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { rt::sim_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { rt::sim_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { rt::sim_delete(p); }

// ------------------------------------------------------------------------------------ ticks
extern "C" void __sanitizer_cov_trace_pc() {
    using namespace rt;
    if (!t_active)
        return;
    uint64_t t  = ++g.ticks;
    auto     pc = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    uint32_t h  = (pc * 2654435761u) >> 16;
    uint32_t i  = (h ^ t_prev) & 0xffffu;
    t_prev      = h >> 1;
    if (g_map[i] != 255)
        ++g_map[i];
    if (__builtin_expect(t >= g.next_ev, 0))
        slow_event();
}

// ------------------------------------------------------------------------------------ clocks
namespace rt {
static int64_t read_steady() {
    ++g.reads;
    auto& ev = g.cfg.clock_evs;
    for (size_t i = 0; i < ev.size();)
        if (ev[i].on == 1 && ev[i].at <= g.reads) {
            ClockEv e = ev[i];
            ev.erase(ev.begin() + static_cast<long>(i));
            apply_clock(e);
        } else
            ++i;
    return steady_ns();
}
static int64_t read_wall() {
    return read_steady() + 1700000000LL * 1000000000LL + g.wall_off;
}
static void real_gettime(clockid_t id, timespec* ts) {
    syscall(SYS_clock_gettime, id, ts);
}
static void to_ts(int64_t ns, timespec* ts) {
    ts->tv_sec  = ns / 1000000000LL;
    ts->tv_nsec = ns % 1000000000LL;
    if (ts->tv_nsec < 0) {
        ts->tv_nsec += 1000000000LL;
        --ts->tv_sec;
    }
}
}  // namespace rt
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    if (rt::t_active)
        return time_point(duration(rt::read_steady()));
    timespec ts;
    rt::real_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
system_clock::time_point system_clock::now() noexcept {
    if (rt::t_active)
        return time_point(duration(rt::read_wall()));
    timespec ts;
    rt::real_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
}}}  // namespace std::chrono::_V2

extern "C" {
int clock_gettime(clockid_t id, timespec* ts) noexcept {
    if (rt::t_active) {
        rt::to_ts(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? rt::read_wall() : rt::read_steady(), ts);
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
int gettimeofday(timeval* tv, void* tz) noexcept {
    (void)tz;
    timespec ts;
    if (rt::t_active)
        rt::to_ts(rt::read_wall(), &ts);
    else
        rt::real_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept {
    timespec ts;
    if (rt::t_active)
        rt::to_ts(rt::read_wall(), &ts);
    else
        rt::real_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock() noexcept {
    if (rt::t_active)
        return static_cast<clock_t>(rt::read_steady() / 1000);
    timespec ts;
    rt::real_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
// Sleeping advances the simulated clock.
int nanosleep(timespec const* req, timespec* rem) {
    if (rt::t_active) {
        rt::ClockEv e{0, 0, 0, req->tv_sec * 1000000000LL + req->tv_nsec, -1};
        rt::apply_clock(e);
        return 0;
    }
    return static_cast<int>(syscall(SYS_nanosleep, req, rem));
}
int clock_nanosleep(clockid_t id, int flags, timespec const* req, timespec* rem) {
    if (rt::t_active) {
        int64_t v = req->tv_sec * 1000000000LL + req->tv_nsec;
        if (flags & TIMER_ABSTIME)
            v -= id == CLOCK_REALTIME ? rt::read_wall() : rt::read_steady();
        rt::ClockEv e{0, 0, 0, v > 0 ? v : 0, -1};
        rt::apply_clock(e);
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_nanosleep, id, flags, req, rem));
}
// Ambient entropy: differs between perturbed runs, fixed by the plan.
static uint64_t entropy() {
    return rt::mix(rt::g.eng++, 991);
}
static int (*real_rand)();
int rand() noexcept {
    if (rt::t_active)
        return static_cast<int>(entropy() & 0x7fffffff);
    if (!real_rand)
        real_rand = reinterpret_cast<int (*)()>(dlsym(RTLD_NEXT, "rand"));
    return real_rand();
}
long random() noexcept {
    return static_cast<long>(rand());
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
    if (rt::t_active) {
        auto b = static_cast<char*>(buf);
        for (size_t i = 0; i < n; ++i)
            b[i] = static_cast<char>(entropy());
        return static_cast<ssize_t>(n);
    }
    return syscall(SYS_getrandom, buf, n, flags);
}
pid_t getpid() noexcept {
    if (rt::t_active)
        return static_cast<pid_t>(2 + rt::mix(rt::g.cfg.addr_seed, 77) % 32749);
    return static_cast<pid_t>(syscall(SYS_getpid));
}
int getentropy(void* buf, size_t n) {
    return getrandom(buf, n, 0) == static_cast<ssize_t>(n) ? 0 : -1;
}
}
namespace std {
random_device::result_type random_device::_M_getval() {
    return static_cast<result_type>(entropy());
}
}

// ------------------------------------------------------------------------- simulated file system
namespace rt { namespace fs {
static int const    NF = 32, NFD = 64;
static size_t const FCAP = 3u << 20;
struct File {
    char     path[96];
    int      used;       // visible to programs
    int      dused;      // durable
    int      dirty;
    size_t   vsz, dsz;
    char     v[FCAP], d[FCAP];
};
struct Disk {
    File f[NF];
};
static Disk* disk = nullptr;
struct Fd {
    int    used, file, flags;
    size_t pos;
    FILE*  fp;
    int    wrote_err;
};
static Fd  fds[NFD];
static int const FD0 = 100000;
static Ctl  C;
static uint64_t opn[OP_NUM];
static uint64_t rng;
static uint64_t n_read;

static void ensure() {
    if (disk)
        return;
    disk = static_cast<Disk*>(mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (disk == MAP_FAILED)
        _exit(3);
}
// The working directory of the code under test is on the simulated disk as well.
static bool ours(char const* p) {
    return p && (strncmp(p, "/simfs/", 7) == 0 || (t_active && p[0] && p[0] != '/'));
}
static int find(char const* p) {
    for (int i = 0; i < NF; ++i)
        if (disk->f[i].used && strcmp(disk->f[i].path, p) == 0)
            return i;
    return -1;
}
static int find_any(char const* p) {
    for (int i = 0; i < NF; ++i)
        if (disk->f[i].path[0] && strcmp(disk->f[i].path, p) == 0)
            return i;
    return -1;
}
static int create(char const* p) {
    int i = find_any(p);
    if (i < 0)
        for (int k = 0; k < NF; ++k)
            if (!disk->f[k].path[0]) {
                i = k;
                break;
            }
    if (i < 0)
        return -1;
    File& f = disk->f[i];
    if (!f.path[0]) {
        snprintf(f.path, sizeof f.path, "%s", p);
        f.dused = 0;
        f.dsz   = 0;
    }
    f.used  = 1;
    f.vsz   = 0;
    f.dirty = 1;
    return i;
}
void ctl(Ctl const& c) {
    ensure();
    C = c;
    memset(opn, 0, sizeof opn);
    rng      = c.noise_seed | 1;
    g.io_ops = 0;
    n_read   = 0;
}
uint64_t bytes_read() {
    return n_read;
}
std::vector<Saved> snapshot() {
    ensure();
    std::vector<Saved> s;
    for (int i = 0; i < NF; ++i) {
        File& f = disk->f[i];
        if (f.path[0])
            s.push_back(Saved{f.path, std::string(f.v, f.vsz), std::string(f.d, f.dsz), f.used, f.dused, f.dirty});
    }
    return s;
}
void restore(std::vector<Saved> const& s) {
    ensure();
    for (int i = 0; i < NF; ++i)
        disk->f[i].path[0] = 0, disk->f[i].used = disk->f[i].dused = disk->f[i].dirty = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        File& f = disk->f[i];
        snprintf(f.path, sizeof f.path, "%s", s[i].path.c_str());
        f.used = s[i].used, f.dused = s[i].dused, f.dirty = s[i].dirty;
        f.vsz = s[i].v.size(), f.dsz = s[i].d.size();
        memcpy(f.v, s[i].v.data(), f.vsz);
        memcpy(f.d, s[i].d.data(), f.dsz);
    }
    close_all();
}
void reset() {
    ensure();
    for (int i = 0; i < NF; ++i) {
        disk->f[i].path[0] = 0;
        disk->f[i].used = disk->f[i].dused = disk->f[i].dirty = 0;
        disk->f[i].vsz = disk->f[i].dsz = 0;
    }
    close_all();
    C = Ctl();
}
void put(std::string const& path, std::string const& data) {
    ensure();
    int i = create(path.c_str());
    if (i < 0 || data.size() > FCAP)
        _exit(3);
    File& f = disk->f[i];
    memcpy(f.v, data.data(), data.size());
    memcpy(f.d, data.data(), data.size());
    f.vsz = f.dsz = data.size();
    f.dused       = 1;
    f.dirty       = 0;
}
bool get(std::string const& path, std::string& data) {
    ensure();
    int i = find(path.c_str());
    if (i < 0)
        return false;
    data.assign(disk->f[i].v, disk->f[i].vsz);
    return true;
}
bool exists(std::string const& path) {
    ensure();
    return find(path.c_str()) >= 0;
}
void erase(std::string const& path) {
    ensure();
    int i = find_any(path.c_str());
    if (i >= 0) {
        disk->f[i].path[0] = 0;
        disk->f[i].used    = 0;
    }
}
void lose_unsynced(uint64_t seed) {
    ensure();
    uint64_t r = seed | 1;
    for (int i = 0; i < NF; ++i) {
        File& f = disk->f[i];
        if (!f.path[0] || !f.dirty)
            continue;
        fired(K_LOST_UNSYNCED);
        switch (lcg(r) % 5) {
        case 0:  // nothing of it reached the disk
            if (!f.dused) {
                f.path[0] = 0;
                f.used    = 0;
                continue;
            }
            f.used = 1;
            f.vsz  = f.dsz;
            memcpy(f.v, f.d, f.dsz);
            break;
        case 1:  // length reached the disk, data did not
            if (f.vsz)
                memset(f.v, 0, f.vsz);
            break;
        case 2:  // empty file
            f.vsz = 0;
            break;
        case 3: {  // prefix
            f.vsz = f.vsz ? lcg(r) % (f.vsz + 1) : 0;
            break;
        }
        default: {  // one sector lost in the middle
            if (f.vsz) {
                size_t s = lcg(r) % f.vsz;
                size_t n = std::min(f.vsz - s, static_cast<size_t>(512));
                memset(f.v + s, 0, n);
            }
        }
        }
        memcpy(f.d, f.v, f.vsz);
        f.dsz   = f.vsz;
        f.dused = f.used;
        f.dirty = 0;
    }
}
uint64_t op_count(Op op) {
    return opn[op];
}
uint64_t total_ops() {
    return g.io_ops;
}
uint64_t open_fds() {
    uint64_t n = 0;
    for (auto& f : fds)
        n += static_cast<uint64_t>(f.used);
    return n;
}
void close_all() {
    for (auto& f : fds)
        f.used = 0;
}
static size_t used_bytes() {
    size_t n = 0;
    for (int i = 0; i < NF; ++i)
        if (disk->f[i].used)
            n += disk->f[i].vsz;
    return n;
}
static void count_io() {
    ++g.io_ops;
    ++sh->stats.io_ops;
    if (g.cfg.crash_io && t_active && g.io_ops == g.cfg.crash_io) {
        fired(K_CRASH_IO);
        sim_crash("crash at file operation");
    }
}
// Returns the applicable fault, or null.
static Fault const* match(Op op, char const* path) {
    for (auto const& f : C.faults) {
        if (f.op != op || (!f.path.empty() && f.path != path))
            continue;
        if (f.nth == 0 || f.nth == opn[op] || (f.sticky && opn[op] >= f.nth))
            return &f;
    }
    return nullptr;
}
static int newfd(int file, int flags) {
    for (int i = 0; i < NFD; ++i)
        if (!fds[i].used) {
            fds[i] = Fd{1, file, flags, 0, nullptr, 0};
            return FD0 + i;
        }
    errno = EMFILE;
    return -1;
}
static Fd* get_fd(int fd) {
    if (fd < FD0 || fd >= FD0 + NFD || !fds[fd - FD0].used)
        return nullptr;
    return &fds[fd - FD0];
}
static int sim_open(char const* path, int flags) {
    ensure();
    count_io();
    ++opn[OPEN];
    if (Fault const* f = match(OPEN, path))
        if (f->err) {
            fired(f->kind);
            errno = f->err;
            return -1;
        }
    if (strlen(path) >= sizeof(File::path)) {
        errno = ENAMETOOLONG;
        return -1;
    }
    if (strchr(path[0] == '/' ? path + 7 : path, '/')) {
        errno = ENOENT;
        return -1;
    }
    int i = find(path);
    if (i < 0) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        i = create(path);
        if (i < 0) {
            errno = ENOSPC;
            return -1;
        }
    } else if (flags & O_EXCL) {
        errno = EEXIST;
        return -1;
    } else if (flags & O_TRUNC) {
        disk->f[i].vsz   = 0;
        disk->f[i].dirty = 1;
    }
    int fd = newfd(i, flags);
    if (fd >= 0 && (flags & O_APPEND))
        fds[fd - FD0].pos = disk->f[i].vsz;
    return fd;
}
static ssize_t sim_read(int fd, void* buf, size_t n) {
    Fd* d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    File& f = disk->f[d->file];
    count_io();
    ++opn[READ];
    size_t lim = n;
    if (Fault const* x = match(READ, f.path)) {
        if (x->err) {
            fired(x->kind);
            errno = x->err;
            return -1;
        }
        if (x->shrt >= 0 && static_cast<size_t>(x->shrt) < lim) {
            lim = static_cast<size_t>(x->shrt);
            fired(x->kind);
        }
    }
    if (C.eintr_ppm && lcg(rng) % 1000000 < C.eintr_ppm) {
        fired(K_EINTR_READ);
        errno = EINTR;
        return -1;
    }
    size_t left = d->pos < f.vsz ? f.vsz - d->pos : 0;
    size_t k    = std::min(lim, left);
    if (C.chunk_seed && k > 1) {
        uint64_t m = lcg(rng) % 4;
        size_t   c = m == 0 ? 1 : m == 1 ? 1 + lcg(rng) % 7 : m == 2 ? 1 + lcg(rng) % 97 : k;
        if (c < k) {
            k = c;
            fired(K_SHORT_READ);
        }
    }
    memcpy(buf, f.v + d->pos, k);
    d->pos += k;
    n_read += k;
    return static_cast<ssize_t>(k);
}
static ssize_t sim_write(int fd, void const* buf, size_t n) {
    Fd* d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    File& f = disk->f[d->file];
    count_io();
    ++opn[WRITE];
    if (n == 0)
        return 0;
    size_t lim = n;
    if (Fault const* x = match(WRITE, f.path)) {
        if (x->shrt >= 0 && static_cast<size_t>(x->shrt) < lim && x->shrt > 0) {
            lim = static_cast<size_t>(x->shrt);
            fired(x->kind);
        } else if (x->err) {
            fired(x->kind);
            errno = x->err;
            return -1;
        }
    }
    if (C.eintr_ppm && lcg(rng) % 1000000 < C.eintr_ppm) {
        fired(K_EINTR_WRITE);
        errno = EINTR;
        return -1;
    }
    size_t k = lim;
    if (C.chunk_seed && k > 1 && lcg(rng) % 2) {
        k = 1 + lcg(rng) % k;
        if (k < lim)
            fired(K_SHORT_WRITE);
    }
    if (d->flags & O_APPEND)
        d->pos = f.vsz;
    size_t room = FCAP - d->pos;
    if (C.disk_cap >= 0) {
        size_t used = used_bytes();
        size_t cap  = static_cast<size_t>(C.disk_cap);
        size_t grow = used < cap ? cap - used : 0;
        size_t over = d->pos < f.vsz ? f.vsz - d->pos : 0;
        room        = std::min(room, grow + over);
    }
    if (room == 0) {
        fired(K_ENOSPC);
        errno = ENOSPC;
        return -1;
    }
    if (k > room)
        k = room;
    if (d->pos > f.vsz)
        memset(f.v + f.vsz, 0, d->pos - f.vsz);
    memcpy(f.v + d->pos, buf, k);
    d->pos += k;
    f.vsz   = std::max(f.vsz, d->pos);
    f.dirty = 1;
    return static_cast<ssize_t>(k);
}
static int sim_close(int fd) {
    Fd* d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    count_io();
    ++opn[CLOSE];
    Fault const* x = match(CLOSE, disk->f[d->file].path);
    d->used        = 0;
    if (x && x->err) {
        fired(x->kind);
        if (x->shrt >= 0) {  // the data written last did not make it
            File& f = disk->f[d->file];
            if (f.vsz > static_cast<size_t>(x->shrt))
                f.vsz = static_cast<size_t>(x->shrt);
        }
        errno = x->err;
        return -1;
    }
    return 0;
}
static int sim_sync(int fd) {
    Fd* d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    File& f = disk->f[d->file];
    count_io();
    ++opn[SYNC];
    if (Fault const* x = match(SYNC, f.path))
        if (x->err) {
            fired(x->kind);
            errno = x->err;
            return -1;
        }
    memcpy(f.d, f.v, f.vsz);
    f.dsz   = f.vsz;
    f.dused = 1;
    f.dirty = 0;
    return 0;
}
static long long sim_seek(int fd, long long off, int wh) {
    Fd* d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    long long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<long long>(d->pos)
                                                         : static_cast<long long>(disk->f[d->file].vsz);
    if (base + off < 0) {
        errno = EINVAL;
        return -1;
    }
    d->pos = static_cast<size_t>(base + off);
    return base + off;
}
static int sim_stat(char const* path, struct stat* st) {
    ensure();
    int i = find(path);
    if (i < 0) {
        if (strcmp(path, "/simfs/") == 0 || strcmp(path, "/simfs") == 0) {
            memset(st, 0, sizeof *st);
            st->st_mode = S_IFDIR | 0755;
            return 0;
        }
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode  = S_IFREG | 0644;
    st->st_size  = static_cast<off_t>(disk->f[i].vsz);
    st->st_nlink = 1;
    st->st_ino   = static_cast<ino_t>(i + 1);
    return 0;
}
static int sim_unlink(char const* p) {
    ensure();
    count_io();
    int i = find(p);
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    disk->f[i].used  = 0;
    disk->f[i].dirty = 1;
    return 0;
}
static int sim_rename(char const* a, char const* b) {
    ensure();
    count_io();
    int i = find(a);
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    int k = find_any(b);
    if (k >= 0 && k != i) {
        disk->f[k].path[0] = 0;
        disk->f[k].used    = 0;
    }
    snprintf(disk->f[i].path, sizeof disk->f[i].path, "%s", b);
    return 0;
}
// cookie FILE
static ssize_t ck_read(void* c, char* b, size_t n) {
    return sim_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
}
static ssize_t ck_write(void* c, char const* b, size_t n) {
    ssize_t r = sim_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
    return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) {
    long long r = sim_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int ck_close(void* c) {
    return sim_close(static_cast<int>(reinterpret_cast<intptr_t>(c)));
}
static FILE* sim_fopen(char const* path, char const* mode) {
    int fl = 0;
    if (mode[0] == 'r')
        fl = strchr(mode, '+') ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w')
        fl = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else
        fl = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = sim_open(path, fl);
    if (fd < 0)
        return nullptr;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE*                 f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    fds[fd - FD0].fp        = f;
    return f;
}

// stdout / stderr capture
static size_t so_total = 0;
static ssize_t so_write(void*, char const* b, size_t n) {
    if (C.stdout_cap >= 0) {
        size_t cap = static_cast<size_t>(C.stdout_cap);
        if (so_total + n > cap) {
            fired(K_STDOUT_FAIL);
            errno = C.stdout_err ? C.stdout_err : EPIPE;
            return 0;
        }
    }
    so_total += n;
    if (n < sizeof sh->out / 2 && sh->out_len + n > sizeof sh->out) {  // keep the end
        size_t keep = sizeof sh->out / 2;
        memmove(sh->out, sh->out + sh->out_len - keep, keep);
        sh->out_len = keep;
    }
    size_t room = sizeof sh->out - sh->out_len;
    size_t k    = std::min(room, n);
    memcpy(sh->out + sh->out_len, b, k);
    sh->out_len += k;
    return static_cast<ssize_t>(n);
}
static ssize_t se_write(void*, char const* b, size_t n) {
    size_t room = sizeof sh->err - sh->err_len;
    size_t k    = std::min(room, n);
    memcpy(sh->err + sh->err_len, b, k);
    sh->err_len += k;
    return static_cast<ssize_t>(n);
}
static char g_obuf[4096];
void capture_std(bool on) {
    static FILE *o0 = nullptr, *e0 = nullptr;
    if (on) {
        o0 = o0 ? o0 : stdout;
        e0 = e0 ? e0 : stderr;
        so_total     = 0;
        sh->out_len = sh->err_len = 0;
        cookie_io_functions_t a{nullptr, so_write, nullptr, nullptr};
        cookie_io_functions_t b{nullptr, se_write, nullptr, nullptr};
        FILE* o = fopencookie(nullptr, "w", a);
        FILE* e = fopencookie(nullptr, "w", b);
        setvbuf(o, g_obuf, _IOFBF, sizeof g_obuf);
        setvbuf(e, nullptr, _IONBF, 0);
        stdout = o;
        stderr = e;
    } else if (o0) {
        FILE *o = stdout, *e = stderr;
        stdout = o0;
        stderr = e0;
        o0 = e0 = nullptr;
        fclose(o);
        fclose(e);
    }
}
}}  // namespace rt::fs

using namespace rt::fs;
extern "C" {
typedef FILE* (*fopen_t)(char const*, char const*);
FILE* fopen(char const* p, char const* m) {
    if (ours(p))
        return sim_fopen(p, m);
    static fopen_t r = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen"));
    return r(p, m);
}
FILE* fopen64(char const* p, char const* m) {
    if (ours(p))
        return sim_fopen(p, m);
    static fopen_t r = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen64"));
    return r(p, m);
}
int fileno(FILE* f) noexcept {
    for (int i = 0; i < NFD; ++i)
        if (fds[i].used && fds[i].fp == f)
            return FD0 + i;
    static int (*r)(FILE*) = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fileno"));
    return r(f);
}
static int real_open(char const* p, int fl, mode_t m) {
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int open(char const* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return ours(p) ? sim_open(p, fl) : real_open(p, fl, m);
}
int open64(char const* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return ours(p) ? sim_open(p, fl) : real_open(p, fl, m);
}
int openat(int dfd, char const* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return ours(p) ? sim_open(p, fl) : static_cast<int>(syscall(SYS_openat, dfd, p, fl, m));
}
int creat(char const* p, mode_t m) {
    return open(p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
ssize_t read(int fd, void* b, size_t n) {
    return fd >= FD0 ? sim_read(fd, b, n) : syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n) {
    return fd >= FD0 ? sim_write(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
    if (fd < FD0)
        return syscall(SYS_pread64, fd, b, n, o);
    auto    d = get_fd(fd);
    size_t  s = d->pos;
    d->pos    = static_cast<size_t>(o);
    ssize_t r = sim_read(fd, b, n);
    d->pos    = s;
    return r;
}
ssize_t writev(int fd, iovec const* v, int c) {
    if (fd < FD0)
        return syscall(SYS_writev, fd, v, c);
    // One system call that may stop anywhere.
    static char buf[FCAP];
    size_t      n = 0;
    for (int i = 0; i < c; ++i) {
        size_t k = std::min(v[i].iov_len, sizeof buf - n);
        memcpy(buf + n, v[i].iov_base, k);
        n += k;
    }
    return sim_write(fd, buf, n);
}
int close(int fd) {
    return fd >= FD0 ? sim_close(fd) : static_cast<int>(syscall(SYS_close, fd));
}
off_t lseek(int fd, off_t o, int w) noexcept {
    return fd >= FD0 ? sim_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
    return fd >= FD0 ? sim_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w);
}
int fsync(int fd) {
    return fd >= FD0 ? sim_sync(fd) : static_cast<int>(syscall(SYS_fsync, fd));
}
int fdatasync(int fd) {
    return fd >= FD0 ? sim_sync(fd) : static_cast<int>(syscall(SYS_fdatasync, fd));
}
int ftruncate(int fd, off_t n) noexcept {
    if (fd < FD0)
        return static_cast<int>(syscall(SYS_ftruncate, fd, n));
    auto d = get_fd(fd);
    if (!d || static_cast<size_t>(n) > FCAP) {
        errno = EINVAL;
        return -1;
    }
    auto& f = disk->f[d->file];
    if (static_cast<size_t>(n) > f.vsz)
        memset(f.v + f.vsz, 0, static_cast<size_t>(n) - f.vsz);
    f.vsz   = static_cast<size_t>(n);
    f.dirty = 1;
    return 0;
}
int fstat(int fd, struct stat* st) noexcept {
    if (fd < FD0)
        return static_cast<int>(syscall(SYS_fstat, fd, st));
    auto d = get_fd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    return sim_stat(disk->f[d->file].path, st);
}
int fstat64(int fd, struct stat64* st) noexcept {
    return fstat(fd, reinterpret_cast<struct stat*>(st));
}
int stat(char const* p, struct stat* st) noexcept {
    return ours(p) ? sim_stat(p, st) : static_cast<int>(syscall(SYS_stat, p, st));
}
int stat64(char const* p, struct stat64* st) noexcept {
    return stat(p, reinterpret_cast<struct stat*>(st));
}
int lstat(char const* p, struct stat* st) noexcept {
    return ours(p) ? sim_stat(p, st) : static_cast<int>(syscall(SYS_lstat, p, st));
}
int access(char const* p, int m) noexcept {
    if (ours(p)) {
        struct stat st;
        return sim_stat(p, &st);
    }
    return static_cast<int>(syscall(SYS_access, p, m));
}
int unlink(char const* p) noexcept {
    return ours(p) ? sim_unlink(p) : static_cast<int>(syscall(SYS_unlink, p));
}
int remove(char const* p) noexcept {
    if (ours(p))
        return sim_unlink(p);
    static int (*r)(char const*) = reinterpret_cast<int (*)(char const*)>(dlsym(RTLD_NEXT, "remove"));
    return r(p);
}
int rename(char const* a, char const* b) noexcept {
    return ours(a) ? sim_rename(a, b) : static_cast<int>(syscall(SYS_rename, a, b));
}
}

// ------------------------------------------------------------------------- cooperative threads
namespace rt {
struct Th {
    ThreadFn  f;
    pthread_t id;
    sem_t     go;
    bool      done = false, blocked = false;
    uint32_t  prev = 0;
};
static std::vector<Th*> ths;
static int              cur = -1;
static uint64_t         s_rng, s_gap, s_max, s_hash, s_n, s_last;
static bool             s_dead;
static sem_t            s_main;
static __thread int     t_idx = -1;
static std::vector<uint64_t> const* s_explicit;
static size_t           s_exp_i;
std::vector<uint64_t>   sched_trace;  // gap, target pairs

std::vector<uint64_t> const& sched_trace_vec() {
    return sched_trace;
}
static uint64_t draw_gap() {
    if (s_explicit) {
        if (s_exp_i + 1 < s_explicit->size())
            return (*s_explicit)[s_exp_i];
        return ~0ULL >> 2;
    }
    if (s_n >= s_max)
        return ~0ULL >> 2;
    uint64_t m = lcg(s_rng) % 8;
    if (m == 0)
        return 1 + lcg(s_rng) % 4;
    if (m == 1)
        return 1 + lcg(s_rng) % 64;
    return 1 + lcg(s_rng) % (2 * s_gap);
}
static int pick() {
    std::vector<int> c;
    for (size_t i = 0; i < ths.size(); ++i)
        if (static_cast<int>(i) != cur && !ths[i]->done)
            c.push_back(static_cast<int>(i));
    if (c.empty())
        return -1;
    if (s_explicit && s_exp_i + 1 < s_explicit->size()) {
        int want = static_cast<int>((*s_explicit)[s_exp_i + 1]);
        s_exp_i += 2;
        for (int x : c)
            if (x == want)
                return x;
        return c[static_cast<size_t>(want) % c.size()];
    }
    return c[lcg(s_rng) % c.size()];
}
static void switch_to(int n) {
    int me = cur;
    s_hash = (s_hash ^ (g.ticks * 131 + static_cast<uint64_t>(n))) * 1099511628211ULL;
    sched_trace.push_back(g.ticks - s_last);
    sched_trace.push_back(static_cast<uint64_t>(n));
    s_last = g.ticks;
    ++s_n;
    cur = n;
    uint64_t gap  = draw_gap();
    g.switch_tick = g.ticks + gap;
    recompute_next();
    if (me >= 0 && !ths[static_cast<size_t>(me)]->done) {
        sem_post(&ths[static_cast<size_t>(n)]->go);
        while (sem_wait(&ths[static_cast<size_t>(me)]->go)) {}
    } else
        sem_post(&ths[static_cast<size_t>(n)]->go);
}
static void maybe_switch() {
    int sv  = t_active;
    t_active = 0;
    int n   = pick();
    if (n < 0)
        g.switch_tick = ~0ULL >> 2;
    else {
        fired(K_PREEMPT);
        ++sh->stats.preempts;
        switch_to(n);
    }
    t_active = sv;
}
// Called when the running thread cannot proceed (lock held by another thread).
static void yield_blocked() {
    int sv   = t_active;
    t_active = 0;
    ths[static_cast<size_t>(cur)]->blocked = true;
    bool all = true;
    for (auto t : ths)
        if (!t->done && !t->blocked)
            all = false;
    if (all)
        s_dead = true;
    int n = -1;
    for (size_t i = 1; i <= ths.size(); ++i) {
        size_t k = (static_cast<size_t>(cur) + i) % ths.size();
        if (!ths[k]->done && static_cast<int>(k) != cur) {
            n = static_cast<int>(k);
            break;
        }
    }
    if (n < 0 || s_dead) {
        sh->hang = 2;
        _exit(98);
    }
    int me = cur;
    switch_to(n);
    ths[static_cast<size_t>(me)]->blocked = false;
    t_active = sv;
}
static void* th_main(void* p) {
    Th* t = static_cast<Th*>(p);
    while (sem_wait(&t->go)) {}
    t_idx = cur;
    t->f.fn(t->f.arg);
    t->done = true;
    for (auto x : ths)
        x->blocked = false;
    int n = pick();
    if (n >= 0)
        switch_to(n);
    else
        sem_post(&s_main);
    return nullptr;
}
bool run_threads(std::vector<ThreadFn> const& fns, uint64_t seed, uint64_t gap, uint64_t maxsw,
                 std::vector<uint64_t> const* explicit_gaps, uint64_t* hash, uint64_t* nsw) {
    ths.clear();
    s_rng      = seed;
    s_gap      = gap ? gap : 1;
    s_max      = maxsw;
    s_hash     = 1469598103934665603ULL;
    s_n        = 0;
    s_last     = 0;
    s_dead     = false;
    s_explicit = explicit_gaps;
    s_exp_i    = 0;
    sched_trace.clear();
    sem_init(&s_main, 0, 0);
    static size_t const STK = 4u << 20;
    for (auto const& f : fns) {
        Th* t = new Th();
        t->f  = f;
        sem_init(&t->go, 0, 0);
        ths.push_back(t);
        pthread_attr_t at;
        pthread_attr_init(&at);
        char* want = reinterpret_cast<char*>(0x310000000000ULL) + ths.size() * (STK * 2);
        void* stk  = mmap(want, STK, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        memset(static_cast<char*>(stk) + STK - (128u << 10), 0x5A, 128u << 10);
        pthread_attr_setstack(&at, stk, STK);
        if (pthread_create(&t->id, &at, th_main, t))
            _exit(3);
        pthread_attr_destroy(&at);
    }
    g.multi = true;
    cur     = -1;
    int n   = pick();
    switch_to(n);
    while (sem_wait(&s_main)) {}
    for (auto t : ths)
        pthread_join(t->id, nullptr);
    g.multi       = false;
    g.switch_tick = ~0ULL;
    recompute_next();
    for (auto t : ths)
        delete t;
    ths.clear();
    *hash = s_hash;
    *nsw  = s_n;
    return !s_dead;
}
}  // namespace rt

extern "C" {
typedef int (*mtx_t)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static mtx_t real = nullptr;
    if (rt::g.multi && rt::t_idx >= 0) {
        while (pthread_mutex_trylock(m) == EBUSY)
            rt::yield_blocked();
        return 0;
    }
    if (!real)
        real = reinterpret_cast<mtx_t>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    return real(m);
}
}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(int64_t* gd) {
    auto b = reinterpret_cast<char volatile*>(gd);
    if (b[0])
        return 0;
    while (b[1]) {
        if (rt::g.multi && rt::t_idx >= 0)
            rt::yield_blocked();
        else
            abort();
        if (b[0])
            return 0;
    }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(int64_t* gd) noexcept {
    auto b = reinterpret_cast<char volatile*>(gd);
    b[0]   = 1;
    b[1]   = 0;
}
extern "C" void __cxa_guard_abort(int64_t* gd) noexcept {
    reinterpret_cast<char volatile*>(gd)[1] = 0;
}
}

namespace rt {
void assert_failed(char const* expr, char const* file, unsigned) {
    char const* b = strrchr(file, '/');
    snprintf(sh->msg, sizeof sh->msg, "%s: assertion failed: %s", b ? b + 1 : file, expr);
    _exit(EXIT_ASSERT);
}
}  // namespace rt
