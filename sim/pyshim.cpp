// Preloaded into the Python interpreter: simulated clock, allocation faults, step counting.
#include <dlfcn.h>
#include <errno.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>

#include <chrono>
#include <exception>
#include <new>

namespace {
struct State {
    bool     on;
    int64_t  base, rate, jump;
    uint64_t exp_read, exp_tick;
    uint64_t fail_at;
    bool     sticky;
    uint64_t max_ticks;
    uint64_t ticks, reads, allocs, failed, expired;
    int      hang_fd;
    bool     watch;  // count allocations only
} S;
uint8_t   edges[1 << 16], seen[1 << 16];
uintptr_t prev_pc;

// pybind11 allocates while it destroys an object, in functions that cannot throw: no faults there.
int g_dealloc;
struct PyTypeStart {
    intptr_t refcnt;
    void*    type;
    intptr_t size;
    char*    name;
    intptr_t basicsize, itemsize;
    void (*dealloc)(void*);
};
void (*g_dealloc_fn)(void*);
void quiet_dealloc(void* o) {
    ++g_dealloc;
    g_dealloc_fn(o);
    --g_dealloc;
}

int64_t now_ns() {
    ++S.reads;
    int64_t t = S.base + static_cast<int64_t>(S.ticks) * S.rate;
    if ((S.exp_read && S.reads >= S.exp_read) || (S.exp_tick && S.ticks >= S.exp_tick)) {
        S.expired = 1;
        t += S.jump;
    }
    return t;
}
void* sim_alloc(size_t n) {
    if (S.on) {
        ++S.allocs;
        if (g_dealloc && S.fail_at == S.allocs)
            ++S.fail_at;
        if (!g_dealloc && S.fail_at && (S.allocs == S.fail_at || (S.sticky && S.allocs > S.fail_at))) {
            ++S.failed;
            return nullptr;
        }
        if (n > (size_t(1) << 32))
            return nullptr;
    }
    void* p = malloc(n ? n : 1);
    if (p && S.on)
        memset(p, 0xA5, n);
    return p;
}
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ULL ^ (b + 0xD1B54A32D192ED03ULL);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    return z ^ (z >> 31);
}
}  // namespace

extern "C" {
// Code of the solver, not of pybind11 (whose steps depend on addresses), is counted.
void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) {
    static uint32_t n;
    for (; b < e; ++b)
        if (!*b)
            *b = ++n * 2654435761u >> 8 | 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!S.on)
        return;
    uint32_t pc = *g;
    uint8_t& e  = edges[((pc >> 1) ^ prev_pc) & 0xffff];
    prev_pc     = (pc >> 2) & 0xffff;
    if (e != 255)
        ++e;
    if (++S.ticks > S.max_ticks) {
        S.on = false;
        if (S.hang_fd >= 0 && write(S.hang_fd, "HANG\n", 5) < 0) {}
        _exit(42);
    }
}
static void on_terminate() {
    if (S.on && g_dealloc && S.failed && S.hang_fd >= 0 && write(S.hang_fd, "CUT\n", 4) == 4)
        _exit(43);
    abort();
}
void ps_begin(int64_t base, int64_t rate, int64_t jump, uint64_t exp_read, uint64_t exp_tick, uint64_t fail_at, int sticky,
              uint64_t max_ticks, int hang_fd) {
    memset(&S, 0, sizeof S);
    std::set_terminate(on_terminate);
    S.base      = base;
    S.rate      = rate;
    S.jump      = jump;
    S.exp_read  = exp_read;
    S.exp_tick  = exp_tick;
    S.fail_at   = fail_at;
    S.sticky    = sticky;
    S.max_ticks = max_ticks;
    S.hang_fd   = hang_fd;
    prev_pc     = 0;
    memset(edges, 0, sizeof edges);
    S.on = true;
}
int ps_wrap_dealloc(void* type) {
    PyTypeStart* t = static_cast<PyTypeStart*>(type);
    if (g_dealloc_fn && t->dealloc != g_dealloc_fn)
        return 1;
    g_dealloc_fn = t->dealloc;
    t->dealloc   = quiet_dealloc;
    return 0;
}
void ps_end(uint64_t* o) {
    S.on        = false;
    uint64_t h  = 1;
    uint64_t ne = 0;
    for (unsigned i = 0; i < 1 << 16; ++i)
        if (edges[i]) {
            unsigned c = 0;
            while (edges[i] >> c)
                ++c;
            h       = mix(h, i * 16 + c);
            seen[i] = 1;
        }
    for (unsigned i = 0; i < 1 << 16; ++i)
        ne += seen[i];
    o[0] = S.ticks;
    o[1] = S.reads;
    o[2] = S.allocs;
    o[3] = S.failed;
    o[4] = h;
    o[5] = ne;
    o[6] = S.expired;
    o[7] = static_cast<uint64_t>(static_cast<int64_t>(S.ticks) * S.rate);
}
int clock_gettime(clockid_t id, timespec* ts) {
    typedef int (*fn)(clockid_t, timespec*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "clock_gettime"));
    if (!S.on || (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME))
        return real(id, ts);
    int64_t t   = now_ns();
    ts->tv_sec  = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    if (S.on)
        return time_point(duration(now_ns()));
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
}}}  // namespace std::chrono::_V2
// pybind11 allocates in a few places from where an exception cannot reach any handler (first the C code of
// the interpreter would have to be unwound). A failure there says nothing about the code under test: when
// the search for a handler comes back empty, the allocation is let through and the next one fails.
static jmp_buf g_retry;
static bool    g_in_throw;
extern "C" _Unwind_Reason_Code _Unwind_RaiseException(_Unwind_Exception* e) {
    typedef _Unwind_Reason_Code (*fn)(_Unwind_Exception*);
    static fn real   = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "_Unwind_RaiseException"));
    bool      mine   = g_in_throw;
    g_in_throw       = false;
    _Unwind_Reason_Code r = real(e);
    if (mine)
        longjmp(g_retry, 1);
    return r;
}
void* operator new(size_t n) {
    void* p = sim_alloc(n);
    if (!p) {
        if (S.on && n <= (size_t(1) << 32)) {
            if (setjmp(g_retry) == 0) {
                g_in_throw = true;
                throw std::bad_alloc();
            }
            --S.failed;
            if (S.fail_at == S.allocs)
                ++S.fail_at;
            p = malloc(n ? n : 1);
            if (p)
                return p;
        }
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n) {
    return operator new(n);
}
void* operator new(size_t n, std::nothrow_t const&) noexcept {
    return sim_alloc(n);
}
void* operator new[](size_t n, std::nothrow_t const&) noexcept {
    return sim_alloc(n);
}
void operator delete(void* p) noexcept {
    free(p);
}
void operator delete[](void* p) noexcept {
    free(p);
}
void operator delete(void* p, size_t) noexcept {
    free(p);
}
void operator delete[](void* p, size_t) noexcept {
    free(p);
}
void operator delete(void* p, std::nothrow_t const&) noexcept {
    free(p);
}
void operator delete[](void* p, std::nothrow_t const&) noexcept {
    free(p);
}
