// Simulation runtime: the only heap, scheduler, clock and process-death surface
// the library under test can see while a simulated run is in progress.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

extern const int lib_opt;   // the -O level of the library in this build

namespace rt {

constexpr int MAXF = 6; // fiber 0 is the setup/teardown fiber

enum DeathKind { D_NONE = 0, D_ABORT, D_EXIT, D_SEGV, D_NULLDEREF, D_FPE, D_HANG, D_STACK, D_CRASH };
const char* death_name(int k);

struct MemErr {
    std::string kind; // "use-after-free", "heap-overflow", "double-free", "invalid-free", "null-..."
    int fiber;
    int op;
};
struct RaceErr {
    int op_a, op_b;
    bool global;   // true when the cell is in the library's static storage
    bool wa, wb;
};

struct Switch { uint64_t at; int to; };

struct Sched {
    bool explicit_mode = false;
    uint64_t seed = 1;
    uint32_t mean_gap = 200;       // mean number of shared accesses between preemptions
    std::vector<Switch> preempt;   // explicit mode: preemptions keyed by global access number
    std::vector<int> forced;       // explicit mode: choices at block/finish points, in order
    int stall_fiber = -1;          // this client makes no progress during a window of the run
    uint64_t stall_from = 0, stall_len = 0;
};

struct AllocFault { int64_t first = -1; int64_t count = 0; }; // fail allocations [first, first+count)

struct Stats {
    uint64_t accesses = 0, switches = 0, allocs = 0, frees = 0, alloc_faults = 0, reused = 0;
    uint64_t func_entries = 0;
};

struct Block { uintptr_t addr; size_t size; int op; bool freed; bool exempt; uint64_t seq; };

void init_process();                       // once per process
void arm_watchdog();                       // in every forked child
void begin_run(int nfibers, const Sched& s, uint8_t fill, int heap, bool races); // heap: bit 0 realloc shrinks in place, bits 1-2 when freed memory is reused
void end_run();                            // wipes arena, library statics
// A new process image: heap and library statics are lost, run bookkeeping is kept.
void process_restart();

typedef void (*FiberFn)(int fiber);
void spawn(int fiber, FiberFn fn);
// Runs spawned fibers until all are finished, dead, deadlocked, or the process died.
// Returns D_NONE or the death kind.
int run_fibers();

int cur();                                  // current fiber
void enter_op(int op, const AllocFault& f, uint64_t kill_at, uint64_t crash_at, uint64_t budget);
extern void (*g_on_kill)(int fiber);        // runs when a simulated thread dies inside a call
void leave_op();
// brackets a call into the library
struct InLib { InLib(); ~InLib(); };
uint64_t op_total_steps();
uint64_t op_steps();                        // shared accesses made by the current op
uint64_t op_allocs();
uint64_t op_trace();                        // hash of the function-entry trace of the current op
bool op_faulted();                          // an injected allocation failure fired in this op

// blocking primitive used by the simulated locks
typedef bool (*ReadyFn)(void*);
void wait_until(ReadyFn fn, void* arg);
void maybe_yield();                         // voluntary scheduling point

// happens-before bookkeeping for harness locks
struct VC { uint32_t c[MAXF]; };
void hb_acquire(const VC& v);
void hb_release(VC& v);                     // v = join(v, current); tick

// caller-owned buffers live in the simulated heap as well
char* caller_string(const std::string& s);
void* caller_alloc(size_t n);
void caller_free(void* p);
void mark_exempt_op(int op);                // blocks of that op are not counted as leaks

int death_kind();
int death_op();
int death_fiber();
uintptr_t death_addr();
std::string death_detail();
bool death_faulted();                       // an injected allocation failure fired in the op that died
bool fault_fired();                         // one fired anywhere since the process started
bool is_exempt(int op);
bool fiber_killed(int f);
bool deadlocked();

const std::vector<MemErr>& mem_errors();
const std::vector<RaceErr>& races();
const std::vector<Block>& blocks();
size_t live_blocks();
bool addr_in_arena(const void* p);

const Stats& stats();
const Sched& recorded();                    // explicit schedule recorded during this run
uint64_t log_hash();
void log_mix(uint64_t v);
void set_sim_time(int64_t t);
int64_t sim_time();
void mark_edges(uint8_t* bits);            // sets a bit (of 8192) for every call edge taken in the library by this process
extern bool g_capture_output;
std::string& captured();
} // namespace rt
