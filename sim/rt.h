// Simulation runtime: owns CPU progress ("ticks"), clocks, memory, files, streams, randomness and
// thread scheduling of the code under test. Everything here is a pure function of the plan.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- fault / event accounting
enum Kind {
    K_EXPIRE_TICK, K_EXPIRE_READ, K_EXPIRE_START, K_CLOCK_STALL, K_CLOCK_JUMP, K_WALL_JUMP,
    K_CLOCK_RATE, K_ALLOC_ONCE, K_ALLOC_STICKY, K_MEM_CAP, K_HEAP_GARBAGE, K_ADDR_PERTURB,
    K_STACK_GARBAGE, K_PREEMPT, K_SHORT_READ, K_EINTR_READ, K_EIO_READ, K_TRUNCATE, K_DAMAGE,
    K_ENOSPC, K_EIO_WRITE, K_SHORT_WRITE, K_EINTR_WRITE, K_CLOSE_ERR, K_OPEN_FAIL, K_CRASH_TICK,
    K_CRASH_IO, K_LOST_UNSYNCED, K_STDOUT_FAIL, K_WARM_DAMAGE, K_RESTART, K_NUM
};
extern char const* const kind_name[K_NUM];

struct Stats {
    uint64_t sut_calls, ticks, sim_ns, clock_reads, allocs, preempts, io_ops;
    uint64_t fired[K_NUM];
};

// ---------------------------------------------------------------- clock control
struct ClockEv {
    int      on;     // 0: at tick, 1: at clock read number
    uint64_t at;
    int      what;   // 0: jump steady by val ns, 1: set rate (ns per tick), 2: jump wall by val ns
    int64_t  val;
    int      kind;   // accounting
};

struct Cfg {
    // clock
    int64_t              base_ns   = 1000000000LL;
    int64_t              rate_ns   = 1000;  // simulated ns per tick
    std::vector<ClockEv> clock_evs;
    // memory
    uint64_t alloc_fail_at  = 0;  // 1-based index of the failing allocation (0: none)
    bool     alloc_sticky   = false;
    uint64_t mem_cap        = 0;  // live bytes (0: none)
    uint64_t max_alloc      = 1ULL << 32;  // larger requests fail
    int      fill           = 0xA5;  // -1: pseudo-random
    uint64_t addr_seed      = 0;  // !=0: perturb addresses
    int      stack_fill     = 0x5A;  // -1: pseudo-random
    // budgets
    uint64_t max_ticks = 4000000000ULL;
    // crash
    uint64_t crash_tick = 0;
    uint64_t crash_io   = 0;
};

void cfg_set(Cfg const& c);    // installs the configuration, resets tick/clock/alloc counters
void enter();                  // code under test starts running on this thread
void leave();
struct Pause {                 // driver code called back from inside
    Pause(); ~Pause(); int d;
};

struct Counters {
    uint64_t ticks, clock_reads, allocs, first_expire_tick;
    int64_t  sim_ns;
    uint64_t alloc_failed;  // how many allocations were failed
    uint64_t live_count, live_bytes;
    uint64_t alloc_hash;    // hash of allocation sizes and order
    uint64_t base_bytes, peak_bytes;  // live at cfg_set; largest growth since
};
Counters counters();
uint64_t live_count();
uint64_t edge_signature();      // signature of the basic blocks executed since cfg_set
unsigned edges_total();         // distinct edges executed by this process
bool     heap_corrupted(char const** what);
void     mark_expired_here();   // remember the tick where the limit passed

// Runs fn on a fresh stack at a fixed address (filled per cfg).
void on_fresh_stack(void (*fn)(void*), void* arg);

// ---------------------------------------------------------------- shared memory (fork-safe)
struct Shared {
    Stats    stats;
    uint8_t  edge_seen[1 << 16];
    int      done;        // child completed
    int      status;      // 0 ok, 1 violation, 2 invalid plan, 3 harness error
    char     cls[128];
    char     msg[3072];
    uint64_t hash;
    uint64_t sig;
    int      hang;        // tick budget exceeded
    uint64_t hang_tick;
    int      crashed;     // simulated crash happened
    char     crash_note[256];
    uint64_t child_val[16];
    size_t   out_len, err_len;
    char     out[1 << 16];
    char     err[1 << 13];
    uint64_t probes[32];
    uint64_t nontrivial;
};
extern Shared* sh;
void init_shared();
inline void fired(Kind k, uint64_t n = 1) { sh->stats.fired[k] += n; }
// Real-time guard of a process: ends it as hanging when no step is made for two minutes, and with
// EXIT_SLOW (the plan is left out, no verdict) when it takes longer than `secs`.
constexpr int EXIT_SLOW = 96;
constexpr int EXIT_ASSERT = 95;  // an assertion of the code under test failed (message in sh->msg)
[[noreturn]] void assert_failed(char const* expr, char const* file, unsigned line);
void          guard_start(int secs);
void          guard_pause(bool on);
inline void probe(int i) { ++sh->probes[i]; }

uint64_t fnv(uint64_t h, void const* p, size_t n);
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- simulated file system
// Paths below "/simfs/" live in shared memory: they survive simulated process crashes.
namespace fs {
    enum Op { OPEN, READ, WRITE, CLOSE, SYNC, OP_NUM };
    struct Fault {
        Op       op;
        uint64_t nth;    // 1-based index among operations of this kind (0: every)
        int      err;    // errno, 0: none
        int64_t  shrt;   // >=0: transfer at most this many bytes
        bool     sticky; // from nth on
        Kind     kind;
        std::string path;  // restrict to this file ("" = any)
    };
    struct Ctl {
        std::vector<Fault> faults;
        uint64_t chunk_seed  = 0;  // !=0: random short transfers
        unsigned eintr_ppm   = 0;  // random EINTR on reads/writes
        int64_t  disk_cap    = -1; // total bytes on disk (-1: unlimited)
        uint64_t noise_seed  = 0;
        int64_t  stdout_cap  = -1; // stdout fails after this many bytes
        int      stdout_err  = 0;
    };
    void ctl(Ctl const& c);       // resets operation counters
    void reset();                 // remove all files
    void put(std::string const& path, std::string const& data);  // durable
    bool get(std::string const& path, std::string& data);
    bool exists(std::string const& path);
    void erase(std::string const& path);
    void lose_unsynced(uint64_t seed);   // power loss
    uint64_t op_count(Op op);
    uint64_t open_fds();
    uint64_t bytes_read();        // delivered to the code under test since ctl()
    struct Saved {
        std::string path, v, d;
        int         used, dused, dirty;
    };
    std::vector<Saved> snapshot();
    void restore(std::vector<Saved> const& s);
    void close_all();
    uint64_t total_ops();
    void capture_std(bool on);    // replace stdout/stderr by capturing streams
}

// ---------------------------------------------------------------- cooperative threads
struct ThreadFn { void (*fn)(void*); void* arg; };
// Runs the functions as real threads of which exactly one runs at a time; switches happen at
// tick counts drawn from the seed (mean gap), or when a thread blocks or ends.
// Returns false on deadlock.
bool run_threads(std::vector<ThreadFn> const& fns, uint64_t seed, uint64_t mean_gap,
                 uint64_t max_switches, std::vector<uint64_t> const* explicit_gaps,
                 uint64_t* sched_hash, uint64_t* nswitch);

std::vector<uint64_t> const& sched_trace_vec();

}  // namespace rt
