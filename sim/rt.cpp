#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" {
extern char __start_simdata[] __attribute__((weak));
extern char __stop_simdata[] __attribute__((weak));
extern char __start_simbss[] __attribute__((weak));
extern char __stop_simbss[] __attribute__((weak));
void rt_switch(void** save_sp, void* new_sp);
}

asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch,.-rt_switch
)");

namespace rt {

static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ASIZE = 128ull << 20, REUSE_FROM = 16ull << 20;
static const uintptr_t STACKS = 0x210000000000ull;
static const size_t STACKSZ = lib_opt ? 1ull << 20 : 4ull << 20; // unoptimised frames are larger
static const size_t GUARD = 1ull << 16;
static const uint8_t SH_FREED = 0xFD;

struct Cell {
    uint8_t wtid, wmask;
    uint16_t wop;
    uint32_t wclk;
    struct { uint8_t tid, mask; uint16_t op; uint32_t clk; } r[3];
};
static_assert(sizeof(Cell) == 32, "cell");

enum FState { F_IDLE, F_READY, F_BLOCKED, F_DONE, F_KILLED };
struct Fiber {
    FState st = F_IDLE;
    void* sp = nullptr;
    FiberFn fn = nullptr;
    ReadyFn ready = nullptr;
    void* ready_arg = nullptr;
    int saved_errno = 0;
    bool in_lib = false;
    int op = -1;
    AllocFault fault;
    uint64_t kill_at = 0, crash_at = 0;
    uint64_t budget = 0;
    uint64_t steps = 0, shared = 0, allocs = 0;
    uint64_t trace = 0;
    bool faulted = false;
    VC vc;
    std::map<void*, void*> tls;
};

struct Runtime {
    uint8_t* shadow = nullptr;   // one byte per 16-byte granule
    uint32_t* gran = nullptr;    // block index + 1 per granule
    Cell* cells = nullptr;
    Cell* gcells = nullptr;
    uintptr_t gbase = 0; size_t gsize = 0;
    uintptr_t gdata = 0; size_t gdatasz = 0; std::vector<char> gsnap;
    uintptr_t gbss = 0; size_t gbsssz = 0;
    size_t bump = 0, bump_max = 0;
    std::vector<Block> blocks;
    Fiber f[MAXF];
    int nf = 0;
    int cur = -1;
    void* main_sp = nullptr;
    bool running = false;
    Sched sched, rec;
    Rng rng{1};
    uint64_t G = 0;
    uint64_t next_preempt = ~0ull;
    size_t pi = 0, fi = 0;
    bool do_races = false;
    bool concurrent = false;
    uint8_t fill = 0;
    bool realloc_in_place = false;
    int reuse = 0;
    std::map<size_t, std::deque<uint32_t>> freed;
    int death = 0; int death_op = -1; int death_fiber = -1; uintptr_t death_addr = 0; std::string death_detail;
    bool deadlock = false, fault_fired = false;
    std::vector<MemErr> merr;
    std::vector<RaceErr> rerr;
    std::unordered_set<int> exempt;
    Stats st;
    uint64_t hash = 0;
    int64_t now = 0;
    uint64_t rnd = 1;
    std::string out;
    uint8_t edges[1024] = {0};
    std::unordered_map<void*, int> mutex_owner;
    std::unordered_map<void*, VC> sync;
    std::unordered_map<void*, int> once;
} R;

bool g_capture_output = true;
static sigjmp_buf g_main_jmp;
static volatile bool g_jmp_ok = false;
static volatile uint64_t g_run_no = 0;
static uint64_t g_watch_last = 0, g_watch_steps = 0; static int g_watch_same = 0, g_watch_still = 0;

const char* death_name(int k) {
    switch(k) {
        case D_NONE: return "none"; case D_ABORT: return "abort"; case D_EXIT: return "exit";
        case D_SEGV: return "wild-memory-access"; case D_NULLDEREF: return "null-dereference";
        case D_FPE: return "arithmetic-trap"; case D_HANG: return "no-progress"; case D_STACK: return "stack-overflow"; case D_CRASH: return "injected-crash";
    }
    return "?";
}

static inline bool in_lib() { return R.cur >= 0 && R.f[R.cur].in_lib; }

static void to_main() {
    Fiber& f = R.f[R.cur];
    f.saved_errno = errno;
    rt_switch(&f.sp, R.main_sp);
    errno = R.f[R.cur].saved_errno;
}

[[noreturn]] static void die(int kind, const std::string& detail) {
    R.death = kind; R.death_fiber = R.cur; R.death_op = R.cur >= 0 ? R.f[R.cur].op : -1; R.death_detail = detail;
    log_mix(0xDEAD0000u + kind);
    void* dummy;
    rt_switch(&dummy, R.main_sp);
    __builtin_unreachable();
}

static void on_signal(int sig, siginfo_t* si, void*) {
    if(sig == SIGVTALRM) { // seconds of processor time, not of wall time
        // Only a loop without a single instrumented step is stopped by time, whatever still
        // takes steps is stopped by its step budget, at the same point in every execution.
        uint64_t steps = R.st.accesses + R.st.func_entries;
        if(g_run_no == g_watch_last) g_watch_same++; else { g_watch_last = g_run_no; g_watch_same = 0; g_watch_still = 0; }
        if(steps == g_watch_steps) g_watch_still++; else { g_watch_steps = steps; g_watch_still = 0; }
        if(g_watch_still < 8 || !g_jmp_ok || !in_lib()) {
            if(g_watch_same >= 240) { const char m[] = "sim: watchdog: harness stuck\n"; (void)!write(2, m, sizeof m - 1); _exit(2); }
            return;
        }
        R.death = D_HANG; R.death_fiber = R.cur; R.death_op = R.f[R.cur].op; R.death_detail = "watchdog";
        siglongjmp(g_main_jmp, 1);
    }
    if(!g_jmp_ok || !in_lib()) {
        char m[200]; int n = snprintf(m, sizeof m, "sim: signal %d at %p outside library code (fiber %d)\n", sig, si->si_addr, R.cur);
        (void)!write(2, m, n); _exit(2);
    }
    uintptr_t a = (uintptr_t)si->si_addr;
    int kind = D_SEGV;
    if(sig == SIGFPE || sig == SIGILL || sig == SIGTRAP) kind = D_FPE;
    else if(a < 65536) kind = D_NULLDEREF;
    else if(a >= STACKS && a < STACKS + MAXF * (STACKSZ + GUARD)) kind = D_STACK;
    R.death = kind; R.death_fiber = R.cur; R.death_op = R.f[R.cur].op; R.death_addr = a; R.death_detail = "";
    siglongjmp(g_main_jmp, 1);
}

static void* must_map(uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if(p == MAP_FAILED || (at && p != (void*)at)) { perror("sim: mmap"); _exit(2); }
    return p;
}

void init_process() {
    must_map(ARENA, ASIZE);
    R.shadow = (uint8_t*)must_map(0, ASIZE / 16);
    R.gran = (uint32_t*)must_map(0, ASIZE / 16 * 4);
    R.cells = (Cell*)must_map(0, ASIZE / 8 * sizeof(Cell));
    for(int i = 0; i < MAXF; i++) {
        uintptr_t b = STACKS + i * (STACKSZ + GUARD);
        must_map(b, STACKSZ + GUARD);
        mprotect((void*)b, GUARD, PROT_NONE);
    }
    R.gdata = (uintptr_t)__start_simdata; R.gdatasz = R.gdata ? __stop_simdata - __start_simdata : 0;
    R.gbss = (uintptr_t)__start_simbss; R.gbsssz = R.gbss ? __stop_simbss - __start_simbss : 0;
    if(R.gdatasz) R.gsnap.assign(__start_simdata, __stop_simdata);
    uintptr_t lo = ~0ull, hi = 0;
    if(R.gdatasz) { lo = std::min(lo, R.gdata); hi = std::max(hi, R.gdata + R.gdatasz); }
    if(R.gbsssz) { lo = std::min(lo, R.gbss); hi = std::max(hi, R.gbss + R.gbsssz); }
    if(hi > lo) { R.gbase = lo & ~7ull; R.gsize = ((hi + 7) & ~7ull) - R.gbase; }
    if(R.gsize) R.gcells = (Cell*)must_map(0, (R.gsize / 8 + 1) * sizeof(Cell));
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
    arm_watchdog();
}
// Interval timers are not inherited across fork.
void arm_watchdog() {
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static void reset_globals() {
    if(R.gdatasz) memcpy((void*)R.gdata, R.gsnap.data(), R.gdatasz);
    if(R.gbsssz) memset((void*)R.gbss, 0, R.gbsssz);
    if(R.gsize && R.do_races) memset((void*)R.gcells, 0, (R.gsize / 8 + 1) * sizeof(Cell));
}

static void wipe_arena() {
    size_t n = R.bump_max;
    memset((void*)ARENA, 0, n);
    memset(R.shadow, 0, n / 16 + 1);
    memset(R.gran, 0, (n / 16 + 1) * 4);
    if(R.do_races) memset((void*)R.cells, 0, (n / 8 + 1) * sizeof(Cell));
    R.bump = 64; R.bump_max = 64;
    R.blocks.clear(); R.freed.clear();
}

static void wipe_fibers() {
    for(auto& f : R.f) { for(auto& kv : f.tls) ::free(kv.second); f.tls.clear(); }
    R.mutex_owner.clear(); R.sync.clear(); R.once.clear();
}

void begin_run(int nfibers, const Sched& s, uint8_t fill, int rip, bool races) {
    g_run_no++;
    R.do_races = true; wipe_arena(); reset_globals(); // full wipe first
    R.do_races = races;
    R.nf = nfibers; R.cur = -1;
    wipe_fibers();
    for(int i = 0; i < MAXF; i++) {
        Fiber& f = R.f[i]; f.st = F_IDLE; f.in_lib = false; f.op = -1; f.trace = 0; f.steps = f.shared = f.allocs = 0;
        memset(&f.vc, 0, sizeof f.vc); f.vc.c[i] = 1; f.kill_at = f.crash_at = 0; f.budget = 0;
    }
    R.sched = s; R.rec = Sched(); R.rec.explicit_mode = true; R.rec.seed = s.seed; R.rec.mean_gap = s.mean_gap; R.rec.stall_fiber = -1;
    R.rng = Rng(s.seed ^ 0x5C4ED);
    R.G = 0; R.pi = R.fi = 0; R.fill = fill; R.realloc_in_place = rip & 1; R.reuse = rip >> 1;
    R.death = 0; R.death_op = -1; R.death_fiber = -1; R.death_addr = 0; R.death_detail.clear(); R.deadlock = false; R.fault_fired = false;
    R.merr.clear(); R.rerr.clear(); R.exempt.clear(); R.st = Stats(); R.hash = 0xcbf29ce484222325ull; R.now = 1000000000; R.rnd = s.seed | 1;
    R.out.clear(); R.concurrent = false;
}
void end_run() { g_run_no++; }

void process_restart() {
    wipe_arena(); reset_globals(); wipe_fibers();
    for(int i = 0; i < MAXF; i++) { R.f[i].st = F_IDLE; R.f[i].in_lib = false; }
    R.cur = -1;
    R.death = 0; R.death_addr = 0; R.death_detail.clear(); R.deadlock = false; R.fault_fired = false;
}

// ---------------------------------------------------------------- scheduling
static uint64_t draw_gap() {
    // geometric-ish: short gaps are frequent, with a long tail
    uint64_t m = R.sched.mean_gap; if(m < 1) m = 1;
    uint64_t r = R.rng.next();
    switch(r & 3) {
        case 0: return 1 + (r >> 8) % (m / 4 + 1);
        case 1: case 2: return 1 + (r >> 8) % (m + 1);
        default: return 1 + (r >> 8) % (4 * m + 1);
    }
}

static int runnable_list(int* out, int except) {
    int n = 0;
    for(int i = 0; i < R.nf; i++) {
        if(i == except) continue;
        Fiber& f = R.f[i];
        if(f.st == F_READY || (f.st == F_BLOCKED && f.ready(f.ready_arg))) out[n++] = i;
    }
    if(R.sched.stall_fiber >= 0 && R.G >= R.sched.stall_from && R.G - R.sched.stall_from < R.sched.stall_len && (n > 1 || except >= 0)) {
        int m = 0; for(int i = 0; i < n; i++) if(out[i] != R.sched.stall_fiber) out[m++] = out[i];
        n = m;
    }
    return n;
}

static int want_switch = -1;

static inline void sched_point() {
    // called on shared accesses when other fibers may run
    if(R.G < R.next_preempt) return;
    int list[MAXF];
    int n = runnable_list(list, R.cur);
    if(R.sched.explicit_mode) {
        int to = R.sched.preempt[R.pi].to; R.pi++;
        R.next_preempt = R.pi < R.sched.preempt.size() ? R.sched.preempt[R.pi].at : ~0ull;
        bool ok = false; for(int i = 0; i < n; i++) if(list[i] == to) ok = true;
        if(!ok) return;
        R.rec.preempt.push_back({R.G, to});
        R.st.switches++; log_mix(R.G * 8 + to);
        want_switch = to; to_main();
        return;
    }
    R.next_preempt = R.G + draw_gap();
    if(n == 0) return;
    int to = list[R.rng.below(n)];
    R.rec.preempt.push_back({R.G, to});
    R.st.switches++; log_mix(R.G * 8 + to);
    want_switch = to; to_main();
}

static void fiber_main() {
    int me = R.cur;
    R.f[me].fn(me);
    R.f[me].st = F_DONE;
    void* dummy;
    rt_switch(&dummy, R.main_sp);
    __builtin_unreachable();
}

void spawn(int i, FiberFn fn) {
    Fiber& f = R.f[i];
    f.fn = fn; f.st = F_READY; f.in_lib = false; f.op = -1; f.saved_errno = 0;
    uintptr_t top = STACKS + (i + 1) * (STACKSZ + GUARD);
    memset((void*)(top - 24576), R.fill, 24576); // stale stack contents are part of the simulated state
    uintptr_t* sp = (uintptr_t*)(top - 64);
    // layout popped by rt_switch: r15 r14 r13 r12 rbx rbp ret
    sp = (uintptr_t*)((uintptr_t)sp & ~15ull);
    *--sp = 0;                       // fake return address for alignment
    *--sp = (uintptr_t)fiber_main;
    for(int k = 0; k < 6; k++) *--sp = 0;
    f.sp = sp;
}

int run_fibers() {
    int nready = 0; for(int i = 0; i < R.nf; i++) if(R.f[i].st == F_READY) nready++;
    R.concurrent = nready > 1;
    // everything before this phase happened before everything in it
    VC join; memset(&join, 0, sizeof join);
    for(int i = 0; i < MAXF; i++) for(int k = 0; k < MAXF; k++) join.c[k] = std::max(join.c[k], R.f[i].vc.c[k]);
    for(int i = 0; i < MAXF; i++) { uint32_t own = R.f[i].vc.c[i]; R.f[i].vc = join; R.f[i].vc.c[i] = own + 1; }
    R.next_preempt = ~0ull;
    if(R.concurrent) {
        if(R.sched.explicit_mode) R.next_preempt = R.pi < R.sched.preempt.size() ? R.sched.preempt[R.pi].at : ~0ull;
        else R.next_preempt = R.G + draw_gap();
    }
    want_switch = -1;
    g_jmp_ok = true;
    if(sigsetjmp(g_main_jmp, 1)) { log_mix(0xDEAD0000u + R.death); }
    while(!R.death) {
        int to = want_switch; want_switch = -1;
        if(to < 0) {
            int list[MAXF];
            int n = runnable_list(list, -1);
            if(n == 0) {
                for(int i = 0; i < R.nf; i++) if(R.f[i].st == F_BLOCKED) R.deadlock = true;
                break;
            }
            if(n == 1) to = list[0];
            else if(R.sched.explicit_mode) {
                to = list[0];
                if(R.fi < R.sched.forced.size()) {
                    int w = R.sched.forced[R.fi]; for(int i = 0; i < n; i++) if(list[i] == w) to = w;
                }
                R.fi++; R.rec.forced.push_back(to);
            }
            else { to = list[R.rng.below(n)]; R.rec.forced.push_back(to); }
            log_mix(0xF0000 + to);
        }
        Fiber& f = R.f[to];
        f.st = F_READY;
        R.cur = to;
        rt_switch(&R.main_sp, f.sp);
    }
    g_jmp_ok = false;
    if(R.death && R.cur >= 0) R.f[R.cur].in_lib = false;
    R.cur = -1;
    R.concurrent = false;
    return R.death;
}

int cur() { return R.cur; }

void wait_until(ReadyFn fn, void* arg) {
    while(!fn(arg)) {
        Fiber& f = R.f[R.cur];
        f.st = F_BLOCKED; f.ready = fn; f.ready_arg = arg;
        to_main();
    }
}
void maybe_yield() {
    if(!R.concurrent) return;
    R.G++;
    sched_point();
}

void (*g_on_kill)(int) = nullptr;
void enter_op(int op, const AllocFault& fa, uint64_t kill_at, uint64_t crash_at, uint64_t budget) {
    Fiber& f = R.f[R.cur];
    f.op = op; f.fault = fa; f.kill_at = kill_at; f.crash_at = crash_at; f.budget = budget; f.steps = f.shared = f.allocs = 0; f.trace = 0; f.faulted = false;
    log_mix(0x1000000 + op);
}
void leave_op() {
    Fiber& f = R.f[R.cur];
    log_mix(f.trace); log_mix(f.allocs);
    f.fault = AllocFault(); f.kill_at = f.crash_at = 0; f.budget = 0;
    f.op = -1;
}
InLib::InLib() { R.f[R.cur].in_lib = true; }
InLib::~InLib() { R.f[R.cur].in_lib = false; }
uint64_t op_total_steps() { return R.f[R.cur].steps; }
uint64_t op_steps() { return R.f[R.cur].shared; }
uint64_t op_allocs() { return R.f[R.cur].allocs; }
uint64_t op_trace() { return R.f[R.cur].trace; }
bool op_faulted() { return R.f[R.cur].faulted; }

void hb_acquire(const VC& v) { VC& m = R.f[R.cur].vc; for(int k = 0; k < MAXF; k++) m.c[k] = std::max(m.c[k], v.c[k]); }
void hb_release(VC& v) {
    VC& m = R.f[R.cur].vc;
    for(int k = 0; k < MAXF; k++) v.c[k] = std::max(v.c[k], m.c[k]);
    m.c[R.cur]++;
}

// ---------------------------------------------------------------- heap
static int op_now() { return R.cur >= 0 ? R.f[R.cur].op : -1; }

static void mem_error(const char* kind) {
    if(R.merr.size() < 32) R.merr.push_back({kind, R.cur, op_now()});
    log_mix(0xBAD);
}

// room taken for a block: large ones come in few sizes, so that one which keeps growing is followed
// by others that fit where it has been
static size_t room(size_t n) {
    size_t rn = (n + 15) & ~15ull;
    if(n <= 8192) return rn;
    size_t step = 1024; while(step * 16 < n) step *= 2;
    return (n + step - 1) / step * step;
}
static void open_shadow(size_t g, size_t n, size_t rn) {
    for(size_t k = 0; k * 16 < rn; k++) R.shadow[g + k] = k * 16 >= n ? 0 : (uint8_t)std::min<size_t>(16, n - k * 16);
}

static void* raw_alloc(size_t n, bool zero) {
    size_t rn = room(n);
    // freed memory of the same size comes back: never, late or at once, as the run says;
    // in any case once the heap has grown large
    {
        auto it = R.freed.find(rn);
        size_t keep = R.reuse == 2 ? 0 : R.reuse == 1 ? 12 : R.bump > REUSE_FROM ? 4 : ~(size_t)0;
        if(it != R.freed.end() && it->second.size() > keep) {
            uint32_t bi = R.reuse == 2 ? it->second.back() : it->second.front();
            if(R.reuse == 2) it->second.pop_back(); else it->second.pop_front();
            Block& b = R.blocks[bi];
            b = Block{b.addr, n, op_now(), false, false, R.st.allocs};
            size_t g = (b.addr - ARENA) / 16;
            open_shadow(g, n, rn);
            if(R.do_races && rn) memset((void*)(R.cells + (b.addr - ARENA) / 8), 0, rn / 8 * sizeof(Cell));
            memset((void*)b.addr, zero ? 0 : R.fill, n);
            R.st.reused++;
            return (void*)b.addr;
        }
    }
    size_t need = 16 + rn + 32;
    if(n > ASIZE / 4 || R.bump + need > ASIZE) {
        if(in_lib() && n <= ASIZE / 4) die(D_HANG, "simulated heap exhausted");
        return nullptr;
    }
    uintptr_t a = ARENA + R.bump + 16;
    R.bump += need; R.bump_max = R.bump;
    size_t g = (a - ARENA) / 16;
    R.blocks.push_back({a, n, op_now(), false, false, R.st.allocs});
    uint32_t bi = (uint32_t)R.blocks.size();
    open_shadow(g, n, rn);
    for(size_t k = 0; k * 16 < rn; k++) R.gran[g + k] = bi;
    if(rn == 0) { R.gran[g] = bi; }
    memset((void*)a, zero ? 0 : R.fill, n);
    return (void*)a;
}

static bool fault_now() {
    if(R.cur < 0) return false;
    Fiber& f = R.f[R.cur];
    int64_t k = (int64_t)f.allocs++;
    R.st.allocs++;
    if(f.fault.first >= 0 && k >= f.fault.first && k - f.fault.first < f.fault.count) {
        f.faulted = true; R.fault_fired = true; R.st.alloc_faults++; log_mix(0xFA17);
        return true;
    }
    return false;
}

static void race_range(uintptr_t a, size_t n, bool w);

static Block* find_block(void* p) {
    uintptr_t a = (uintptr_t)p;
    if(a < ARENA || a >= ARENA + ASIZE || (a & 15)) return nullptr;
    uint32_t bi = R.gran[(a - ARENA) / 16];
    if(!bi) return nullptr;
    Block* b = &R.blocks[bi - 1];
    return b->addr == a ? b : nullptr;
}

static void do_free(void* p) {
    if(!p) return;
    Block* b = find_block(p);
    if(!b) { mem_error("invalid-free"); return; }
    if(b->freed) { mem_error("double-free"); return; }
    if(R.do_races && b->size) race_range(b->addr, b->size, true);
    b->freed = true; R.st.frees++;
    size_t g = (b->addr - ARENA) / 16;
    for(size_t k = 0; k * 16 < b->size; k++) R.shadow[g + k] = SH_FREED;
    memset(p, 0xDD ^ (R.fill & 1), b->size);
    R.freed[room(b->size)].push_back((uint32_t)(b - R.blocks.data()));
}

const std::vector<Block>& blocks() { return R.blocks; }
size_t live_blocks() { size_t n = 0; for(auto& b : R.blocks) if(!b.freed && !R.exempt.count(b.op)) n++; return n; }
void mark_exempt_op(int op) { R.exempt.insert(op); }
bool addr_in_arena(const void* p) { return (uintptr_t)p - ARENA < ASIZE; }

char* caller_string(const std::string& s) {
    char* p = (char*)raw_alloc(s.size() + 1, false);
    if(!p) { fprintf(stderr, "sim: arena exhausted by caller\n"); _exit(2); }
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}
void* caller_alloc(size_t n) { void* p = raw_alloc(n, true); if(!p) _exit(2); return p; }
void caller_free(void* p) { do_free(p); }

// ---------------------------------------------------------------- accesses
static void race_cell(Cell& c, uint8_t mask, bool w, bool global) {
    int me = R.cur; VC& vc = R.f[me].vc; int op = op_now();
    if(c.wmask && (c.wmask & mask) && c.wtid != me && c.wclk > vc.c[c.wtid]) {
        if(R.rerr.size() < 16) { R.rerr.push_back({c.wop, op, global, true, w}); log_mix(0xACE); }
    }
    if(w) {
        for(auto& r : c.r) {
            if(r.mask && (r.mask & mask) && r.tid != me && r.clk > vc.c[r.tid]) {
                if(R.rerr.size() < 16) { R.rerr.push_back({r.op, op, global, false, true}); log_mix(0xACE); }
            }
        }
        c.wtid = me; c.wmask = mask; c.wop = (uint16_t)op; c.wclk = vc.c[me];
        for(auto& r : c.r) if(r.tid == me) r.mask = 0;
    }
    else {
        int slot = -1, empty = -1;
        for(int i = 0; i < 3; i++) { if(c.r[i].mask && c.r[i].tid == me) slot = i; else if(!c.r[i].mask && empty < 0) empty = i; }
        if(slot >= 0) { if(c.r[slot].clk == vc.c[me]) c.r[slot].mask |= mask; else c.r[slot].mask = mask; }
        else { slot = empty >= 0 ? empty : (int)(R.G % 3); c.r[slot].mask = mask; }
        c.r[slot].tid = me; c.r[slot].clk = vc.c[me]; c.r[slot].op = (uint16_t)op;
    }
}

static void race_range(uintptr_t a, size_t n, bool w) {
    if(R.cur < 0) return;
    bool global = false; Cell* base; uintptr_t off;
    if(a - ARENA < ASIZE) { base = R.cells; off = a - ARENA; }
    else if(a - R.gbase < R.gsize) { base = R.gcells; off = a - R.gbase; global = true; }
    else return;
    size_t end = off + n;
    while(off < end) {
        size_t c = off / 8, lo = off % 8, len = std::min<size_t>(8 - lo, end - off);
        uint8_t mask = (uint8_t)(((1u << len) - 1) << lo);
        race_cell(base[c], mask, w, global);
        off += len;
    }
}

static bool shadow_ok(uintptr_t a, size_t n) {
    size_t off = a - ARENA;
    if(off + n > ASIZE) return false;
    while(n) {
        size_t g = off / 16, lo = off % 16, len = std::min<size_t>(16 - lo, n);
        uint8_t s = R.shadow[g];
        if(s == SH_FREED || lo + len > s) return false;
        off += len; n -= len;
    }
    return true;
}

static void shadow_report(uintptr_t a) {
    size_t g = (a - ARENA) / 16;
    if(a - ARENA < ASIZE && R.shadow[g] == SH_FREED) mem_error("use-after-free");
    else mem_error("heap-out-of-bounds");
}

static void kill_self() {
    Fiber& f = R.f[R.cur];
    f.st = F_KILLED; f.in_lib = false;
    log_mix(0x6B111);
    if(g_on_kill) g_on_kill(R.cur);
    void* dummy;
    rt_switch(&dummy, R.main_sp);
    __builtin_unreachable();
}

static inline void acc(void* p, size_t n, bool w) {
    if(R.cur < 0) return;
    Fiber& f = R.f[R.cur];
    if(!f.in_lib) return;
    R.st.accesses++;
    f.steps++;
    if(f.budget && f.steps > f.budget) die(D_HANG, "step budget exceeded");
    uintptr_t a = (uintptr_t)p;
    bool shared = false;
    if(a - ARENA < ASIZE) { if(!shadow_ok(a, n)) shadow_report(a); shared = true; }
    else if(a - R.gbase < R.gsize) shared = true;
    if(!shared) return;
    f.shared++;
    if(f.kill_at && f.shared == f.kill_at) kill_self();
    if(f.crash_at && f.shared == f.crash_at) die(D_CRASH, "injected process crash");
    if(R.concurrent) {
        R.G++;
        sched_point(); // preempt before the access takes effect
    }
    if(R.do_races) race_range(a, n, w);
}

int death_kind() { return R.death; }
int death_op() { return R.death_op; }
int death_fiber() { return R.death_fiber; }
uintptr_t death_addr() { return R.death_addr; }
std::string death_detail() { return R.death_detail; }
bool death_faulted() { return R.death_fiber >= 0 && R.f[R.death_fiber].faulted; }
bool fault_fired() { return R.fault_fired; }
bool is_exempt(int op) { return R.exempt.count(op) > 0; }
bool fiber_killed(int i) { return R.f[i].st == F_KILLED; }
bool deadlocked() { return R.deadlock; }
const std::vector<MemErr>& mem_errors() { return R.merr; }
const std::vector<RaceErr>& races() { return R.rerr; }
const Stats& stats() { return R.st; }
const Sched& recorded() { return R.rec; }
uint64_t log_hash() { return R.hash; }
void log_mix(uint64_t v) { uint64_t h = R.hash ^ v; h *= 0x9FB21C651E98DF25ull; h ^= h >> 32; R.hash = h * 0x100000001b3ull + 0x27d4eb2f; }
void set_sim_time(int64_t t) { R.now = t; }
int64_t sim_time() { return R.now; }
void mark_edges(uint8_t* bits) { for(size_t i = 0; i < sizeof R.edges; i++) if(R.edges[i]) __atomic_fetch_or(bits + i, R.edges[i], __ATOMIC_RELAXED); }
std::string& captured() { return R.out; }

static void cap(const char* s, size_t n) { if(R.out.size() > 4096) R.out.erase(0, 2048); R.out.append(s, n); }
static int capv(const char* fmt, va_list ap) {
    char b[512]; int n = vsnprintf(b, sizeof b, fmt, ap);
    if(n > 0) cap(b, std::min<size_t>(n, sizeof b - 1));
    return n;
}

} // namespace rt

using namespace rt;

// =================================================================== instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if(R.cur < 0) return;
    Fiber& f = R.f[R.cur];
    R.st.func_entries++;
    uint64_t me = (uint64_t)__builtin_return_address(0) ^ ((uint64_t)pc << 20);
    f.trace = (f.trace ^ me) * 0x100000001b3ull;
    uint64_t eh = (me * 0x9E3779B97F4A7C15ull) >> 51; R.edges[eh >> 3] |= 1 << (eh & 7);
    f.steps++;
    if(f.budget && f.steps > f.budget) die(D_HANG, "step budget exceeded");
}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, false); } \
    void __tsan_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } \
    void __tsan_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if(n) acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if(n) acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if(n) { acc((void*)s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if(n) { acc((void*)s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if(n) acc(d, n, true); return memset(d, c, n); }

static void sync_op(void* a) { // acquire + release on an address
    if(R.cur < 0) return;
    Fiber& f = R.f[R.cur];
    f.steps++;
    if(f.budget && f.steps > f.budget) die(D_HANG, "step budget exceeded");
    if(R.concurrent && f.in_lib) { R.G++; sched_point(); }
    auto it = R.sync.find(a);
    if(it != R.sync.end()) hb_acquire(it->second);
    VC& v = R.sync[a];
    hb_release(v);
}
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { sync_op((void*)a); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { sync_op((void*)a); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sync_op((void*)a); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sync_op((void*)a); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sync_op((void*)a); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync_op((void*)a); T o = *a; if(o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// thread-local variables of the library: one copy per simulated caller thread
struct emutls_ctl { size_t size, align; void* idx; void* templ; };
void* sim___emutls_get_address(emutls_ctl* c) {
    static char fallback[4096];
    if(R.cur < 0) return fallback;
    Fiber& f = R.f[R.cur];
    void*& p = f.tls[c];
    if(!p) {
        p = ::calloc(1, c->size + 64);
        if(c->templ) memcpy(p, c->templ, c->size);
    }
    return p;
}

// =================================================================== libc surface
void* sim_malloc(size_t n) { if(fault_now()) { errno = ENOMEM; return nullptr; } return raw_alloc(n, false); }
void* sim_calloc(size_t a, size_t b) {
    if(fault_now()) { errno = ENOMEM; return nullptr; }
    if(b && a > SIZE_MAX / b) return nullptr;
    return raw_alloc(a * b, true);
}
void* sim_realloc(void* p, size_t n) {
    if(fault_now()) { errno = ENOMEM; return nullptr; }
    if(!p) return raw_alloc(n, false);
    Block* b = find_block(p);
    if(!b) { mem_error("invalid-realloc"); return raw_alloc(n, false); }
    if(b->freed) { mem_error("realloc-after-free"); return raw_alloc(n, false); }
    size_t old = b->size;
    if(n == 0) { do_free(p); return nullptr; }
    if(R.realloc_in_place && n <= old && ((n + 15) & ~15ull) == ((old + 15) & ~15ull)) {
        b->size = n;
        size_t g = (b->addr - ARENA) / 16;
        for(size_t k = 0; k * 16 < ((n + 15) & ~15ull); k++) R.shadow[g + k] = (uint8_t)std::min<size_t>(16, n - k * 16);
        return p;
    }
    void* q = raw_alloc(n, false);
    if(!q) return nullptr;
    if(R.do_races && old) race_range((uintptr_t)p, std::min(old, n), false);
    memcpy(q, p, std::min(old, n));
    do_free(p);
    return q;
}
void sim_free(void* p) { do_free(p); }
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** out, size_t, size_t n) { void* p = sim_malloc(n); if(!p) return ENOMEM; *out = p; return 0; }

[[noreturn]] void sim_abort() { die(D_ABORT, R.out.size() > 160 ? R.out.substr(R.out.size() - 160) : R.out); }
[[noreturn]] void sim_exit(int rc) { die(D_EXIT, "exit(" + std::to_string(rc) + ") " + (R.out.size() > 160 ? R.out.substr(R.out.size() - 160) : R.out)); }
[[noreturn]] void sim__exit(int rc) { sim_exit(rc); }
[[noreturn]] void sim___assert_fail(const char* e, const char*, unsigned, const char*) { die(D_ABORT, std::string("assert: ") + e); }
[[noreturn]] void sim___stack_chk_fail() { die(D_SEGV, "stack smashing"); }

int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = capv(fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char* fmt, va_list ap) { return capv(fmt, ap); }
static bool std_stream(FILE* f) { return f == stdout || f == stderr; }
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = std_stream(f) ? capv(fmt, ap) : vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) { return std_stream(f) ? capv(fmt, ap) : vfprintf(f, fmt, ap); }
int sim_puts(const char* s) { cap(s, strlen(s)); return 1; }
int sim_putchar(int c) { char b = (char)c; cap(&b, 1); return c; }
int sim_putc(int c, FILE* f) { if(std_stream(f)) return sim_putchar(c); return fputc(c, f); }
int sim_fputc(int c, FILE* f) { return sim_putc(c, f); }
int sim_fputs(const char* s, FILE* f) { if(std_stream(f)) { cap(s, strlen(s)); return 1; } return fputs(s, f); }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { if(std_stream(f)) { cap((const char*)p, a * b); return b; } return fwrite(p, a, b, f); }
int sim_fflush(FILE* f) { if(!f || std_stream(f)) return 0; return fflush(f); }
void sim_perror(const char*) {}

static size_t slen(const char* s) { // strlen that stays inside the simulated heap's view
    size_t n = strlen(s);
    acc((void*)s, n + 1, false);
    return n;
}
size_t sim_strlen(const char* s) { return slen(s); }
size_t sim_strnlen(const char* s, size_t m) { size_t n = strnlen(s, m); acc((void*)s, n < m ? n + 1 : n, false); return n; }
static size_t cmp_len(const char* a, const char* b, size_t m) { size_t i = 0; while(i < m && a[i] && a[i] == b[i]) i++; return i < m ? i + 1 : m; }
int sim_strcmp(const char* a, const char* b) { size_t n = cmp_len(a, b, SIZE_MAX); acc((void*)a, n, false); acc((void*)b, n, false); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t m) { if(!m) return 0; size_t n = cmp_len(a, b, m); acc((void*)a, n, false); acc((void*)b, n, false); return strncmp(a, b, m); }
int sim_strcasecmp(const char* a, const char* b) { slen(a); slen(b); return strcasecmp(a, b); }
int sim_strncasecmp(const char* a, const char* b, size_t m) { return strncasecmp(a, b, m); }
int sim_strcoll(const char* a, const char* b) { return sim_strcmp(a, b); }
int sim_memcmp(const void* a, const void* b, size_t n) { if(n) { acc((void*)a, n, false); acc((void*)b, n, false); } return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
void* sim_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
void* sim_memchr(const void* p, int c, size_t n) { void* r = (void*)memchr(p, c, n); size_t m = r ? (char*)r - (char*)p + 1 : n; if(m) acc((void*)p, m, false); return r; }
char* sim_strcpy(char* d, const char* s) { size_t n = slen(s); acc(d, n + 1, true); return strcpy(d, s); }
char* sim_stpcpy(char* d, const char* s) { size_t n = slen(s); acc(d, n + 1, true); return stpcpy(d, s); }
char* sim_strncpy(char* d, const char* s, size_t m) { if(m) { sim_strnlen(s, m); acc(d, m, true); } return strncpy(d, s, m); }
char* sim_strcat(char* d, const char* s) { size_t a = slen(d), n = slen(s); acc(d + a, n + 1, true); return strcat(d, s); }
char* sim_strncat(char* d, const char* s, size_t m) { size_t a = slen(d), n = sim_strnlen(s, m); acc(d + a, n + 1, true); return strncat(d, s, m); }
char* sim_strstr(const char* a, const char* b) { slen(a); slen(b); return (char*)strstr(a, b); }
char* sim_strchr(const char* a, int c) { slen(a); return (char*)strchr(a, c); }
char* sim_strrchr(const char* a, int c) { slen(a); return (char*)strrchr(a, c); }
char* sim_strpbrk(const char* a, const char* b) { slen(a); return (char*)strpbrk(a, b); }
size_t sim_strspn(const char* a, const char* b) { slen(a); return strspn(a, b); }
size_t sim_strcspn(const char* a, const char* b) { slen(a); return strcspn(a, b); }
char* sim_strdup(const char* s) { size_t n = slen(s); char* p = (char*)sim_malloc(n + 1); if(p) { acc(p, n + 1, true); memcpy(p, s, n + 1); } return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = sim_strnlen(s, m); char* p = (char*)sim_malloc(n + 1); if(p) { acc(p, n + 1, true); memcpy(p, s, n); p[n] = 0; } return p; }
char* sim_strtok_r(char* s, const char* d, char** save) { if(s) slen(s); return strtok_r(s, d, save); }
char* sim_strcasestr(const char* a, const char* b) { slen(a); slen(b); return (char*)strcasestr(a, b); }
void* sim_memrchr(const void* p, int c, size_t n) { if(n) acc((void*)p, n, false); return (void*)memrchr(p, c, n); }
void* sim_memmem(const void* a, size_t n, const void* b, size_t m) { if(n) acc((void*)a, n, false); if(m) acc((void*)b, m, false); return memmem(a, n, b, m); }
unsigned long sim_strtoul(const char* s, char** e, int b) { slen(s); return strtoul(s, e, b); }
unsigned long sim___isoc23_strtoul(const char* s, char** e, int b) { slen(s); return strtoul(s, e, b); }
float sim_strtof(const char* s, char** e) { slen(s); return strtof(s, e); }
int sim_vasprintf(char** out, const char* fmt, va_list ap) {
    va_list ap2; va_copy(ap2, ap); int r = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2);
    if(r < 0) return r;
    char* p = (char*)sim_malloc((size_t)r + 1); if(!p) return -1;
    acc(p, (size_t)r + 1, true); vsnprintf(p, (size_t)r + 1, fmt, ap); *out = p; return r;
}
int sim_asprintf(char** out, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
char* sim_strtok(char* s, const char* d) { static char* save; return strtok_r(s, d, &save); }
long sim_strtol(const char* s, char** e, int b) { slen(s); return strtol(s, e, b); }
long long sim_strtoll(const char* s, char** e, int b) { slen(s); return strtoll(s, e, b); }
long sim___isoc23_strtol(const char* s, char** e, int b) { slen(s); return strtol(s, e, b); }
long long sim___isoc23_strtoll(const char* s, char** e, int b) { slen(s); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char* s, char** e, int b) { slen(s); return strtoull(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char* s, char** e, int b) { slen(s); return strtoull(s, e, b); }
double sim_strtod(const char* s, char** e) { slen(s); return strtod(s, e); }
double sim_atof(const char* s) { slen(s); return atof(s); }
int sim_atoi(const char* s) { slen(s); return atoi(s); }
long sim_atol(const char* s) { slen(s); return atol(s); }
long long sim_atoll(const char* s) { slen(s); return atoll(s); }
int sim_snprintf(char* b, size_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(b, n, fmt, ap); va_end(ap); if(n && r >= 0) acc(b, std::min<size_t>(n, (size_t)r + 1), true); return r; }
int sim_vsnprintf(char* b, size_t n, const char* fmt, va_list ap) { int r = vsnprintf(b, n, fmt, ap); if(n && r >= 0) acc(b, std::min<size_t>(n, (size_t)r + 1), true); return r; }
int sim_sprintf(char* b, const char* fmt, ...) {
    va_list ap, ap2; va_start(ap, fmt); va_copy(ap2, ap);
    int r = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2);
    if(r >= 0) acc(b, (size_t)r + 1, true);
    r = vsprintf(b, fmt, ap); va_end(ap); return r;
}
int sim_vsprintf(char* b, const char* fmt, va_list ap) { va_list ap2; va_copy(ap2, ap); int r = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2); if(r >= 0) acc(b, (size_t)r + 1, true); return vsprintf(b, fmt, ap); }
// glibc's qsort allocates and is a black box; an in-place deterministic sort keeps element accesses visible
void sim_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    char* a = (char*)base;
    if(n > 1 && sz) acc(base, n * sz, true);
    std::vector<char> tmp(sz);
    // binary insertion for small inputs, heap sort for large ones
    if(n <= 64) {
        for(size_t i = 1; i < n; i++) {
            size_t lo = 0, hi = i;
            memcpy(tmp.data(), a + i * sz, sz);
            while(lo < hi) { size_t m = (lo + hi) / 2; if(cmp(a + m * sz, a + i * sz) <= 0) lo = m + 1; else hi = m; }
            memmove(a + (lo + 1) * sz, a + lo * sz, (i - lo) * sz);
            memcpy(a + lo * sz, tmp.data(), sz);
        }
        return;
    }
    auto swap = [&](size_t i, size_t j) { memcpy(tmp.data(), a + i * sz, sz); memcpy(a + i * sz, a + j * sz, sz); memcpy(a + j * sz, tmp.data(), sz); };
    auto sift = [&](size_t s, size_t e) {
        size_t r = s;
        while(2 * r + 1 <= e) {
            size_t c = 2 * r + 1, w = r;
            if(cmp(a + w * sz, a + c * sz) < 0) w = c;
            if(c + 1 <= e && cmp(a + w * sz, a + (c + 1) * sz) < 0) w = c + 1;
            if(w == r) return;
            swap(r, w); r = w;
        }
    };
    for(size_t s = (n - 2) / 2 + 1; s-- > 0;) sift(s, n - 1);
    for(size_t e = n - 1; e > 0; e--) { swap(0, e); sift(0, e - 1); }
}
void* sim_bsearch(const void* k, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    size_t lo = 0, hi = n;
    while(lo < hi) { size_t m = (lo + hi) / 2; const char* p = (const char*)base + m * sz; int c = cmp(k, p); if(c == 0) return (void*)p; if(c < 0) hi = m; else lo = m + 1; }
    return nullptr;
}
// time and randomness: simulated, never real
time_t sim_time_(time_t* t) { time_t v = (time_t)R.now; if(t) *t = v; return v; }
clock_t sim_clock() { return (clock_t)(R.G); }
int sim_clock_gettime(int, struct timespec* ts) { ts->tv_sec = R.now; ts->tv_nsec = (long)(R.G % 1000000000ull); return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = R.now; tv->tv_usec = (long)(R.G % 1000000ull); return 0; }
int sim_rand() { R.rnd = R.rnd * 6364136223846793005ull + 1442695040888963407ull; return (int)((R.rnd >> 33) & 0x7fffffff); }
void sim_srand(unsigned) {}
long sim_random() { return sim_rand(); }
void sim_srandom(unsigned) {}
double sim_drand48() { return sim_rand() / 2147483648.0; }
int sim_usleep(unsigned) { maybe_yield(); return 0; }
unsigned sim_sleep(unsigned s) { R.now += s; maybe_yield(); return 0; }
int sim_nanosleep(const struct timespec*, struct timespec*) { maybe_yield(); return 0; }
int sim_sched_yield() { maybe_yield(); return 0; }

// locks the library might use
static bool mtx_free(void* m) { auto it = R.mutex_owner.find(m); return it == R.mutex_owner.end() || it->second < 0; }
int sim_pthread_mutex_init(void*, const void*) { return 0; }
int sim_pthread_mutex_destroy(void*) { return 0; }
int sim_pthread_mutex_lock(void* m) {
    if(R.cur < 0) return 0;
    sync_op((char*)m + 1);
    if(!mtx_free(m) && R.mutex_owner[m] == R.cur) die(D_HANG, "self-deadlock on mutex");
    wait_until(mtx_free, m);
    R.mutex_owner[m] = R.cur;
    auto it = R.sync.find(m); if(it != R.sync.end()) hb_acquire(it->second);
    return 0;
}
int sim_pthread_mutex_trylock(void* m) { if(!mtx_free(m)) return EBUSY; return sim_pthread_mutex_lock(m); }
int sim_pthread_mutex_unlock(void* m) { if(R.cur < 0) return 0; R.mutex_owner[m] = -1; hb_release(R.sync[m]); return 0; }
int sim_pthread_rwlock_rdlock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_wrlock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_unlock(void* m) { return sim_pthread_mutex_unlock(m); }
int sim_pthread_rwlock_init(void*, const void*) { return 0; }
int sim_pthread_rwlock_destroy(void*) { return 0; }
int sim_pthread_spin_lock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_spin_unlock(void* m) { return sim_pthread_mutex_unlock(m); }
int sim_pthread_once(void* o, void (*fn)()) { if(!R.once[o]) { R.once[o] = 1; fn(); } sync_op(o); return 0; }
unsigned long sim_pthread_self() { return (unsigned long)(R.cur + 1); }
}
