// libmc.so: a stateless model checker for C++ threads.
//
// The harness TU is instrumented by -fsanitize=thread; this library implements the callbacks.  Logical
// threads are fibers of one OS thread.  Before every visible operation (atomic access, mutex operation,
// static-init guard, clock access, history event, optionally plain accesses) a fiber announces the
// operation and switches to the explorer, which decides who runs next.  The explorer enumerates all
// schedules depth-first with source-DPOR style backtracking and sleep sets, or all schedules with at most
// k preemptions.  Data nondeterminism (mc_choose, thread death, stale loads, spurious CAS failures) is
// enumerated exhaustively as well.
//
// Independently of the exploration, a happens-before race detector runs on the declared C++ memory
// orders, and the heap is an arena without reuse, so that use-after-free and overruns are detected.

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <new>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_map>
#include <chrono>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" char __libc_single_threaded;

namespace {

constexpr int MAXT = 8;            // logical threads (1..MAXT-1 children, 0 = main)

// ------------------------------------------------------------------------------------------------
// fibers
// ------------------------------------------------------------------------------------------------
extern "C" void mc_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

struct eh_globals { void* caught; unsigned int uncaught; };
extern "C" eh_globals* __cxa_get_globals();

constexpr size_t STACK_SZ = 512 * 1024;

enum Kind : uint8_t
{
    K_NONE, K_LOAD, K_STORE, K_RMW, K_LOCK, K_UNLOCK, K_TRYLOCK, K_GACQ, K_GREL, K_CLKR, K_CLKW,
    K_CALL, K_RET, K_PR, K_PW, K_YIELD
};
const char* kind_name[] = { "none", "load", "store", "rmw", "lock", "unlock", "trylock", "guard-acquire",
    "guard-release", "clock-read", "clock-advance", "call", "return", "read", "write", "yield" };

struct Op
{
    Kind kind = K_NONE;
    uint8_t order = 5;
    uint16_t size = 0;
    uintptr_t addr = 0;
    uintptr_t pc = 0;
};

inline bool is_write(Kind k) { return k == K_STORE || k == K_RMW || k == K_PW; }
inline bool is_mem(Kind k) { return k == K_LOAD || k == K_STORE || k == K_RMW || k == K_PR || k == K_PW; }
inline bool is_mutex(Kind k) { return k == K_LOCK || k == K_UNLOCK || k == K_TRYLOCK; }
inline bool is_guard(Kind k) { return k == K_GACQ || k == K_GREL; }

bool dependent(const Op& a, const Op& b)
{
    if (is_mem(a.kind) && is_mem(b.kind))
        return (is_write(a.kind) || is_write(b.kind)) && a.addr < b.addr + b.size && b.addr < a.addr + a.size;
    if (is_mutex(a.kind) && is_mutex(b.kind)) return a.addr == b.addr;
    if (is_guard(a.kind) && is_guard(b.kind)) return a.addr == b.addr;
    if (a.kind == K_CLKW) return b.kind == K_CLKR || b.kind == K_CLKW;
    if (b.kind == K_CLKW) return a.kind == K_CLKR;
    if (a.kind == K_CALL) return b.kind == K_RET;
    if (a.kind == K_RET) return b.kind == K_CALL;
    return false;
}

// earlier event a and later event b can be adjacent in a different order only if co-enabled
bool coenabled(const Op& a, const Op& b)
{
    if (a.kind == K_UNLOCK && (b.kind == K_LOCK || b.kind == K_UNLOCK)) return false;
    if (a.kind == K_LOCK && b.kind == K_UNLOCK) return false;
    if (a.kind == K_GREL && b.kind == K_GACQ) return false;
    if (a.kind == K_GACQ && b.kind == K_GREL) return false;
    return true;
}

struct VC { int c[MAXT] = {}; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Fiber
{
    void* sp = nullptr;
    char* stack = nullptr;
    eh_globals eh {};
    bool started = false, finished = false, dead = false, yielded = false;
    unsigned flags = 0;
    Op pending;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    long steps = 0, op_steps = 0, budget = 0;
    long consec = 0;
    int yields = 0;              // so far
    uint32_t yield_wait = 0;     // after some yields: the threads which have to take a step first
    // race detector
    VC T, acqp, relf;
    int quiet = 0;
};

Fiber fibers[MAXT];
int cur = -1;                    // running fiber, -1 = explorer
void* explorer_sp = nullptr;
eh_globals explorer_eh;
int nthreads = 0;                // children in the current parallel phase
bool in_par = false;
bool exec_active = false;        // inside an execution (arena on)
int in_rt = 0;                   // inside the runtime: use malloc, ignore callbacks

struct RT { RT() { ++in_rt; } ~RT() { --in_rt; } };

void fiber_main();
// thread-local variables of the executable: every fiber has its own copy
char* tls_base = nullptr; size_t tls_size = 0;
char* tls_init = nullptr;        // content at the start of an execution
char* tls_copy[MAXT];
char* tls_explorer = nullptr;

void init_fiber(int i)
{
    if (tls_size) memcpy(tls_copy[i], tls_init, tls_size);
    Fiber& f = fibers[i];
    if (!f.stack)
    {
        f.stack = (char*)mmap(nullptr, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f.stack == MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(f.stack, 4096, PROT_NONE);
    }
    char* keep = f.stack;
    f = Fiber();
    f.stack = keep;
    uintptr_t top = (uintptr_t)f.stack + STACK_SZ - 256;
    top &= ~(uintptr_t)15;
    uintptr_t* s = (uintptr_t*)top;
    *--s = 0;                        // fake return address, keeps alignment
    *--s = (uintptr_t)&fiber_main;   // ret target
    for (int k = 0; k < 6; ++k) *--s = 0;
    --s;
    uint32_t* cw = (uint32_t*)s;
    asm volatile("stmxcsr %0" : "=m"(cw[0]));
    uint16_t fcw; asm volatile("fnstcw %0" : "=m"(fcw));
    cw[1] = fcw;
    f.sp = s;
}

int tls_find(dl_phdr_info* info, size_t sz, void*)
{
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data)
        {
            tls_base = (char*)info->dlpi_tls_data;
            tls_size = info->dlpi_phdr[i].p_memsz;
        }
    return 1;                    // only the first object, the executable
}

void tls_setup()
{
    dl_iterate_phdr(tls_find, nullptr);
    if (!tls_size) return;
    tls_init = (char*)malloc(tls_size); memcpy(tls_init, tls_base, tls_size);
    tls_explorer = (char*)malloc(tls_size);
    for (int i = 0; i < MAXT; ++i) tls_copy[i] = (char*)malloc(tls_size);
}

inline bool in_tls(uintptr_t a) { return a - (uintptr_t)tls_base < tls_size; }

void to_explorer()
{
    int me = cur;
    if (tls_size) { memcpy(tls_copy[me], tls_base, tls_size); memcpy(tls_base, tls_explorer, tls_size); }
    fibers[me].eh = *__cxa_get_globals();
    *__cxa_get_globals() = explorer_eh;
    cur = -1;
    mc_switch(&fibers[me].sp, explorer_sp);
}

void resume(int i)
{
    explorer_eh = *__cxa_get_globals();
    *__cxa_get_globals() = fibers[i].eh;
    cur = i;
    if (tls_size) { memcpy(tls_explorer, tls_base, tls_size); memcpy(tls_base, tls_copy[i], tls_size); }
    mc_switch(&explorer_sp, fibers[i].sp);
}

// ------------------------------------------------------------------------------------------------
// harness registry and options
// ------------------------------------------------------------------------------------------------
struct Harness { std::string name; void (*fn)(); unsigned flags; long p0, p1; };
std::vector<Harness>& harnesses() { static auto* h = new std::vector<Harness>(); return *h; }
Harness* H = nullptr;
int tier = 0;

enum { F_PLAIN_VISIBLE = 1, F_NO_RACE = 2, F_PB = 4, F_WEAK_CAS = 8, F_THOROUGH = 16, F_STALE = 32, F_LOCKFREE = 64, F_LEAK = 128 };
enum { T_CRASH = 1 };

// ------------------------------------------------------------------------------------------------
// exploration stack
// ------------------------------------------------------------------------------------------------
struct Node
{
    bool is_choice = false;
    // choice
    int n = 0, cur = 0;
    // schedule
    uint32_t enabled = 0, backtrack = 0, done = 0, sleep = 0;
    int chosen = -1, prev = -1, preempt = 0;
    int ev = 0;          // index of the event executed from here
    Op pend[MAXT];
};
std::vector<Node> stk;
size_t depth = 0;               // next node index in this execution
size_t replay_len = 0;          // nodes below this are replayed
bool free_replay = false;       // --replay: choices are taken from forced list
std::vector<int> forced;
size_t forced_pos = 0;

struct Event { int tid; Op op; VC clock; VC pre; int node; long val; };
std::vector<Event> trace;       // events of the current execution (scheduled ones)
size_t trace_len = 0;           // events executed so far in this execution
size_t trace_valid = 0;         // events whose clocks are valid from the previous execution
size_t race_from = 0;
VC dporC[MAXT];

struct Stats
{
    unsigned long executions = 0, transitions = 0, nodes = 0, sleepblocked = 0, choices = 0, crashes = 0, maxdepth = 0, races_checked = 0, bounded_out = 0;
    std::map<std::string, unsigned long> outcomes;
    bool capped = false;
} stats;

enum AbortReason { AB_NONE, AB_VIOLATION, AB_SLEEP, AB_DIVERGED };
AbortReason abort_reason = AB_NONE;
std::string viol_kind, viol_msg;

int64_t vtime = 0;
long tick_no = 0;
int weak_budget = 0;
long total_steps = 0;
volatile unsigned long progress_counter = 0;

[[noreturn]] void abort_exec(AbortReason r)
{
    abort_reason = r;
    if (cur < 0) { fprintf(stderr, "mc: internal error: abort outside a fiber\n"); _exit(3); }
    to_explorer();
    abort();
}

std::string symbolize(uintptr_t pc);

[[noreturn]] void violation(const char* kind, const std::string& msg)
{
    RT rt;
    viol_kind = kind;
    viol_msg = msg;
    if (cur >= 0) abort_exec(AB_VIOLATION);
    abort_reason = AB_VIOLATION;
    fprintf(stderr, "mc: violation raised in explorer context\n");
    _exit(3);
}

std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
    return buf;
}

// ------------------------------------------------------------------------------------------------
// arena
// ------------------------------------------------------------------------------------------------
constexpr uintptr_t ARENA_BASE = 0x600000000000ull;
constexpr size_t ARENA_PER = 64ull << 20;          // per thread
constexpr size_t ARENA_SZ = ARENA_PER * MAXT;
size_t arena_used[MAXT];
size_t arena_high[MAXT];
struct Block { uint32_t size; uint8_t state; int8_t tid; };   // state: 1 live 2 freed
// per 16-byte unit: block index
std::unordered_map<uintptr_t, Block>* blocks;      // by start address
uint8_t* shadow;                                    // per 8 byte granule: 0 unallocated, 1..8 valid bytes, 0xF0 redzone, 0xFD freed
long live_blocks = 0;

inline bool in_arena(uintptr_t a) { return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SZ; }

void arena_init()
{
    void* p = mmap((void*)ARENA_BASE, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA_BASE) { fprintf(stderr, "mc: cannot map arena\n"); _exit(3); }
    shadow = (uint8_t*)mmap(nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = new std::unordered_map<uintptr_t, Block>();
}

void arena_reset()
{
    for (int i = 0; i < MAXT; ++i)
    {
        if (arena_used[i])
            memset(shadow + i * (ARENA_PER / 8), 0, arena_used[i] / 8 + 8);
        arena_used[i] = 0;
    }
    blocks->clear();
    live_blocks = 0;
}

void* arena_alloc(size_t n, size_t align)
{
    RT rt;
    int t = cur < 0 ? 0 : cur;
    size_t a = align < 16 ? 16 : align;
    size_t off = arena_used[t] + 16;                 // red zone before
    off = (off + a - 1) & ~(a - 1);
    size_t rn = (n + 7) & ~(size_t)7;
    if (off + rn + 32 > ARENA_PER) violation("memory", "harness exceeded its memory budget (runaway allocation)");
    uintptr_t base = ARENA_BASE + t * ARENA_PER;
    uint8_t* sh = shadow + t * (ARENA_PER / 8);
    memset(sh + arena_used[t] / 8, 0xF0, (off - arena_used[t]) / 8);
    for (size_t i = 0; i < rn / 8; ++i) sh[off / 8 + i] = (n - i * 8) >= 8 ? 8 : (uint8_t)(n - i * 8);
    arena_used[t] = (off + rn + 15) & ~(size_t)15;
    memset(sh + (off + rn) / 8, 0xF0, (arena_used[t] - off - rn) / 8 + 2);
    memset((void*)(base + off), 0xA5, rn);
    (*blocks)[base + off] = Block{ (uint32_t)n, 1, (int8_t)t };
    ++live_blocks;
    return (void*)(base + off);
}

void race_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc);

void arena_free(void* p, uintptr_t pc)
{
    RT rt;
    auto it = blocks->find((uintptr_t)p);
    if (it == blocks->end()) violation("memory", fmt("free of an address that was never allocated, at %s", symbolize(pc).c_str()));
    if (it->second.state == 2) violation("memory", fmt("double free of a %u-byte block, at %s", it->second.size, symbolize(pc).c_str()));
    it->second.state = 2;
    --live_blocks;
    size_t n = it->second.size;
    if (in_par && cur > 0) race_access((uintptr_t)p, n, true, false, pc);
    uint8_t* sh = shadow + ((uintptr_t)p - ARENA_BASE) / 8;
    memset(sh, 0xFD, (n + 7) / 8);
}

void check_addr(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
    if (!in_arena(a)) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8)
    {
        uint8_t s = shadow[(g - ARENA_BASE) / 8];
        if (s == 8) continue;
        if (s == 0xFD) violation("memory", fmt("%s of freed memory at %s", write ? "write" : "read", symbolize(pc).c_str()));
        if (s == 0xF0 || s == 0) violation("memory", fmt("out-of-bounds heap %s at %s", write ? "write" : "read", symbolize(pc).c_str()));
        uintptr_t last = e < g + 8 ? e - g : 8;
        if (last > s) violation("memory", fmt("out-of-bounds heap %s at %s", write ? "write" : "read", symbolize(pc).c_str()));
    }
}

// ------------------------------------------------------------------------------------------------
// happens-before race detector
// ------------------------------------------------------------------------------------------------
struct Acc { int8_t tid; uint8_t mask; bool write, atomic; int clk; uintptr_t pc; };
std::unordered_map<uintptr_t, std::vector<Acc>>* racemap;

std::string modname(uintptr_t pc);

void race_report(const Acc& o, int t, bool write, bool atomic, uintptr_t pc)
{
    violation("race", fmt("data race: thread %d %s%s at %s is not ordered with thread %d %s%s at %s",
        o.tid, o.atomic ? "atomic " : "", o.write ? "write" : "read", symbolize(o.pc).c_str(),
        t, atomic ? "atomic " : "", write ? "write" : "read", symbolize(pc).c_str()));
}

void race_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc)
{
    if (!in_par || cur <= 0 || (H->flags & F_NO_RACE)) return;
    Fiber& f = fibers[cur];
    uintptr_t sb = (uintptr_t)f.stack;
    if (addr >= sb && addr < sb + STACK_SZ) return;     // own stack
    if (in_tls(addr)) return;
    ++stats.races_checked;
    for (uintptr_t g = addr & ~7ull; g < addr + size; g += 8)
    {
        uint8_t mask = 0;
        for (int b = 0; b < 8; ++b) if (g + b >= addr && g + b < addr + size) mask |= 1 << b;
        auto& v = (*racemap)[g];
        bool placed = false;
        for (auto& o : v)
        {
            if (o.tid == cur)
            {
                if (o.write == write && o.atomic == atomic && o.mask == mask) { o.clk = f.T.c[cur]; o.pc = pc; placed = true; }
                continue;
            }
            if (!(o.mask & mask) || (!o.write && !write) || (o.atomic && atomic)) continue;
            if (o.clk > f.T.c[o.tid]) race_report(o, cur, write, atomic, pc);
        }
        if (!placed) v.push_back(Acc{ (int8_t)cur, mask, write, atomic, f.T.c[cur], pc });
    }
}

struct StoreRec { unsigned char val[16]; VC hb; int tid; int clk; VC rel; bool has_rel; };
struct Loc
{
    VC L;                       // release clock of the current (latest) value
    int last_rel_tid = -1;
    // history, for stale loads
    std::vector<StoreRec> st;
    int seen[MAXT] = {};        // smallest index this thread may still read
    std::vector<std::pair<VC, int>> dummy;
    struct Rd { int tid, clk, idx; };
    std::vector<Rd> reads;
};
std::unordered_map<uintptr_t, Loc>* locs;
struct Mtx { int owner = -1; int count = 0; VC L; };
inline bool recursive(uintptr_t m) { return (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
std::unordered_map<uintptr_t, Mtx>* mtxs;
struct Grd { int owner = -1; VC L; };
std::unordered_map<uintptr_t, Grd>* grds;
VC sc_fence;

inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void bump() { if (cur > 0) fibers[cur].T.c[cur]++; }

void hb_load(Loc& l, int mo)
{
    Fiber& f = fibers[cur];
    if (acq(mo)) join(f.T, l.L); else join(f.acqp, l.L);
}
void hb_store(Loc& l, int mo, bool rmw)
{
    Fiber& f = fibers[cur];
    if (rel(mo))
    {
        if (rmw) join(l.L, f.T); else l.L = f.T;
        l.last_rel_tid = cur;
    }
    else
    {
        if (rmw) join(l.L, f.relf);
        else if (l.last_rel_tid == cur) join(l.L, f.relf);   // C++14 release sequence of the same thread
        else { l.L = f.relf; l.last_rel_tid = -1; }
    }
    bump();
}

// ------------------------------------------------------------------------------------------------
// announcing operations
// ------------------------------------------------------------------------------------------------
long step_limit = 20000;

// returns false when the operation is not to be scheduled (single-threaded phase)
bool announce(const Op& op)
{
    if (!in_par || cur <= 0) return false;
    Fiber& f = fibers[cur];
    if (f.quiet) return false;
    f.pending = op;
    to_explorer();
    return true;
}

bool op_enabled(int t)
{
    Fiber& f = fibers[t];
    const Op& o = f.pending;
    if (o.kind == K_LOCK) { auto it = mtxs->find(o.addr); return it == mtxs->end() || it->second.owner < 0; }
    if (o.kind == K_GACQ) { auto it = grds->find(o.addr); return it == grds->end() || it->second.owner < 0; }
    return true;
}

// a violation was seen, and the same schedule comes out differently another time: the code depends on
// indeterminate memory (all else is deterministic here), which is no less of a violation
std::string first_kind, first_msg;
std::vector<int> first_choices;
void write_replay(const std::string& path, const std::vector<int>& ch, const std::string& text);
void print_stats(const char* status);
std::string outdir = ".", replay_file;
void report_irreproducible()
{
    exec_active = false;
    viol_kind = first_kind;
    viol_msg = first_msg + " (in this execution; repeated, it came out differently)";
    replay_file = outdir + "/" + H->name + ".replay";
    write_replay(replay_file, first_choices, "");
    print_stats("violation");
    fprintf(stderr, "VIOLATED %s: %s: %s\n", H->name.c_str(), viol_kind.c_str(), viol_msg.c_str());
    fflush(stdout);
    _exit(1);
}

void diverged(const char* what)
{
    if (!first_kind.empty()) report_irreproducible();
    fprintf(stderr, "mc: DIVERGENCE while replaying (%s): harness %s is not deterministic\n", what, H->name.c_str());
    _exit(3);
}

int choose_impl(int n)
{
    if (n <= 1) return 0;
    RT rt;
    if (free_replay)
    {
        int c = forced_pos < forced.size() ? forced[forced_pos++] : 0;
        if (c >= n) diverged("choice out of range");
        Node nd; nd.is_choice = true; nd.n = n; nd.cur = c;
        stk.push_back(nd); ++depth;
        return c;
    }
    if (depth < replay_len)
    {
        Node& nd = stk[depth++];
        if (!nd.is_choice || nd.n != n) diverged("choice");
        return nd.cur;
    }
    Node nd; nd.is_choice = true; nd.n = n; nd.cur = 0;
    if (stk.size() != depth) diverged("stack");
    stk.push_back(nd);
    ++depth;
    ++stats.choices;
    return 0;
}

void fiber_main()
{
    Fiber& f = fibers[cur];
    if (cur == 0)
    {
        --in_rt;                    // leave the runtime
        H->fn();
        ++in_rt;
        if (H->flags & F_LEAK)
            if (live_blocks != 0)
                violation("memory", fmt("%ld heap blocks are still allocated at the end", live_blocks));
    }
    else
    {
        int save = in_rt; in_rt = 0;
        f.fn(f.arg);
        in_rt = save;
    }
    fibers[cur].finished = true;
    fibers[cur].pending = Op();
    to_explorer();
    abort();
}

bool handle_after_op_budget(int t)
{
    Fiber& f = fibers[t];
    if (f.budget && f.op_steps > f.budget) return false;
    return true;
}

// ---- explorer: one parallel phase --------------------------------------------------------------
// returns when all threads are finished (or dead), or an abort happened
void run_parallel()
{
    in_par = true;
    for (int t = 1; t <= nthreads; ++t)
    {
        if (fibers[t].finished) continue;
        int s = in_rt; in_rt = 0;
        resume(t);
        in_rt = s;
        if (abort_reason != AB_NONE) { in_par = false; return; }
    }
    int prev = -1;
    int preempts = 0;
    uint32_t sleep = 0;      // sleep set for the next node
    while (true)
    {
        uint32_t en = 0, alive = 0;
        for (int t = 1; t <= nthreads; ++t)
        {
            if (fibers[t].finished || fibers[t].dead) continue;
            alive |= 1u << t;
            if (op_enabled(t)) en |= 1u << t;
        }
        if (!alive) break;
        if (!en)
        {
            bool any_dead = false;
            for (int t = 1; t <= nthreads; ++t) if (fibers[t].dead) any_dead = true;
            std::string m = any_dead ? "thread blocked forever by a suspended thread:" : "deadlock:";
            for (int t = 1; t <= nthreads; ++t)
                if (alive >> t & 1) m += fmt(" thread %d waits for %s(%s);", t, kind_name[fibers[t].pending.kind], symbolize(fibers[t].pending.pc).c_str());
            viol_kind = any_dead ? "blocked" : "deadlock"; viol_msg = m; abort_reason = AB_VIOLATION;
            in_par = false;
            return;
        }
        // fairness: yielded threads wait for somebody else's step
        uint32_t fair = en;
        for (int t = 1; t <= nthreads; ++t) if (fibers[t].yielded || (fibers[t].yield_wait & en)) fair &= ~(1u << t);
        if (!fair) fair = en;
        if (prev > 0 && fibers[prev].consec > 300 && (fair & ~(1u << prev))) fair &= ~(1u << prev);
        en = fair;
        if (++total_steps > step_limit)
        {
            viol_kind = "livelock"; viol_msg = fmt("no termination within %ld visible steps", step_limit); abort_reason = AB_VIOLATION;
            in_par = false;
            return;
        }
        int chosen;
        Node* nd;
        if (free_replay)
        {
            int c = forced_pos < forced.size() ? forced[forced_pos++] : -1;
            if (c < 0 || !(en >> c & 1))
            {
                if (forced_pos <= forced.size() && c >= 0) diverged("scheduled thread not enabled");
                c = (prev > 0 && (en >> prev & 1)) ? prev : __builtin_ctz(en);
            }
            Node x; x.enabled = en; x.chosen = c; x.prev = prev; x.ev = (int)trace_len;
            for (int t = 1; t <= nthreads; ++t) x.pend[t] = fibers[t].pending;
            stk.push_back(x); ++depth;
            nd = &stk.back();
            chosen = c;
        }
        else if (depth < replay_len)
        {
            nd = &stk[depth++];
            if (nd->is_choice || nd->enabled != en) diverged("enabled set");
            for (int t = 1; t <= nthreads; ++t)
                if ((alive >> t & 1) && (nd->pend[t].kind != fibers[t].pending.kind || nd->pend[t].addr != fibers[t].pending.addr)) { fprintf(stderr, "thread %d: %s %lx (%s), expected %s %lx (%s)\n", t, kind_name[fibers[t].pending.kind], (unsigned long)fibers[t].pending.addr, symbolize(fibers[t].pending.pc).c_str(), kind_name[nd->pend[t].kind], (unsigned long)nd->pend[t].addr, symbolize(nd->pend[t].pc).c_str()); diverged("pending operation"); }
            chosen = nd->chosen;
        }
        else
        {
            Node x;
            x.enabled = en; x.prev = prev; x.sleep = sleep & alive; x.preempt = preempts; x.ev = (int)trace_len;
            for (int t = 1; t <= nthreads; ++t) x.pend[t] = fibers[t].pending;
            ++stats.nodes;
            if (H->flags & F_PB)
            {
                chosen = (prev > 0 && (en >> prev & 1)) ? prev : __builtin_ctz(en);
                bool can_preempt = !(prev > 0 && (en >> prev & 1)) || preempts < H->p0;
                if (can_preempt) x.backtrack = en; else { x.backtrack = 1u << chosen; if (en & ~(1u << chosen)) ++stats.bounded_out; }
            }
            else
            {
                uint32_t cand = en & ~x.sleep;
                if (!cand) { ++stats.sleepblocked; abort_reason = AB_SLEEP; in_par = false; return; }
                chosen = (prev > 0 && (cand >> prev & 1)) ? prev : __builtin_ctz(cand);
                x.backtrack = 1u << chosen;
            }
            x.chosen = chosen;
            if (stk.size() != depth) diverged("stack");
            stk.push_back(x);
            ++depth;
            nd = &stk.back();
        }
        if (prev > 0 && chosen != prev && (nd->enabled >> prev & 1)) ++preempts;

        // record the event
        size_t k = trace_len++;
        ++stats.transitions;
        if (trace.size() < trace_len) trace.resize(trace_len);
        Event& e = trace[k];
        e.tid = chosen; e.op = nd->pend[chosen]; e.node = (int)depth - 1;
        // effects on blocking objects
        Fiber& f = fibers[chosen];
        if (e.op.kind == K_LOCK) (*mtxs)[e.op.addr].owner = chosen;
        // sleep set of the child (computed from the announced, conservative operation)
        uint32_t asleep = (nd->sleep | nd->done) & ~(1u << chosen);
        f.steps++; f.op_steps++;
        for (int t = 1; t <= nthreads; ++t) if (t != chosen) { fibers[t].yielded = false; fibers[t].yield_wait &= ~(1u << chosen); fibers[t].consec = 0; }
        f.consec++;
        if (e.op.kind == K_YIELD)
        {
            // threads that keep yielding must not keep each other going while the one they wait for doesn't run
            f.yielded = true;
            if (++f.yields > 3) f.yield_wait = alive & ~(1u << chosen);
        }
        prev = chosen;
        int s = in_rt; in_rt = 0;
        size_t my = k;
        size_t nodeidx = depth - 1;
        resume(chosen);
        in_rt = s;
        // the operation may have been refined while executing (failed compare-exchange)
        uint32_t ns = 0;
        for (int t = 1; t <= nthreads; ++t)
            if ((asleep >> t & 1) && !dependent(stk[nodeidx].pend[t], trace[my].op)) ns |= 1u << t;
        sleep = ns;
        if (abort_reason != AB_NONE) { in_par = false; return; }
        if (!handle_after_op_budget(chosen))
        {
            viol_kind = "steps"; viol_msg = fmt("thread %d needed more than %ld own steps for one operation", chosen, f.budget); abort_reason = AB_VIOLATION;
            in_par = false;
            return;
        }
    }
    in_par = false;
}

// ---- after an execution: clocks and backtrack points ---------------------------------------------
void analyse()
{
    if (H->flags & F_PB) return;
    size_t from = trace_valid;
    std::vector<VC> C(MAXT);
    for (size_t i = 0; i < from; ++i) C[trace[i].tid] = trace[i].clock;
    for (size_t k = from; k < trace_len; ++k)
    {
        Event& e = trace[k];
        int p = e.tid;
        VC u = C[p];
        VC full = C[p];
        // immediate races, latest first
        for (size_t jj = k; jj-- > 0;)
        {
            Event& j = trace[jj];
            if (j.tid == p || !dependent(j.op, e.op)) continue;
            join(full, j.clock);
            if (!coenabled(j.op, e.op)) continue;
            bool ordered = u.c[j.tid] > (int)jj;
            if (!ordered)
            {
                // reversible race (j, e)
                // v = events after j not happening after j, then e
                Node& nd = stk[j.node];
                uint32_t init = 0, seenp = 0;
                std::vector<size_t> v;
                for (size_t m = jj + 1; m < k; ++m)
                {
                    Event& em = trace[m];
                    if (em.clock.c[j.tid] > (int)jj) continue;
                    if (!(seenp >> em.tid & 1))
                    {
                        seenp |= 1u << em.tid;
                        bool first = true;
                        for (size_t w : v) if (em.clock.c[trace[w].tid] > (int)w) { first = false; break; }
                        if (first) init |= 1u << em.tid;
                    }
                    v.push_back(m);
                }
                if (!(seenp >> p & 1))
                {
                    // does any event of v happen before e?
                    VC kc = C[p];
                    bool first = true;
                    for (size_t w : v)
                        if (kc.c[trace[w].tid] > (int)w || dependent(trace[w].op, e.op)) { first = false; break; }
                    if (first) init |= 1u << p;
                }
                if (!(nd.backtrack & init))
                {
                    uint32_t ok = init & nd.enabled;
                    if (!ok) nd.backtrack |= nd.enabled;
                    else if (ok >> p & 1) nd.backtrack |= 1u << p;
                    else nd.backtrack |= 1u << __builtin_ctz(ok);
                }
            }
            join(u, j.clock);
        }
        full.c[p] = (int)k + 1;
        e.clock = full;
        C[p] = full;
    }
}

char* data_b; char* data_e; char* data_copy;

// run one execution; result in abort_reason
void execute()
{
    memcpy(data_b, data_copy, data_e - data_b);
    arena_reset();
    racemap->clear(); locs->clear(); mtxs->clear(); grds->clear();
    sc_fence = VC();
    vtime = 1000000000000000000ll;
    tick_no = 0; total_steps = 0;
    weak_budget = (H->flags & F_WEAK_CAS) ? 1 : 0;
    depth = 0; trace_len = 0;
    abort_reason = AB_NONE;
    nthreads = 0;
    in_rt = 1;                      // an execution that was cut short leaves the nesting count anywhere
    init_fiber(0);
    exec_active = true;
    ++progress_counter;
    while (true)
    {
        resume(0);
        if (abort_reason != AB_NONE || fibers[0].finished) break;
        // main asked for a parallel phase
        run_parallel();
        if (abort_reason != AB_NONE) break;
    }
    exec_active = false;
    in_par = false;
    cur = -1;
}

// move to the next unexplored alternative; false when done
bool backtrack()
{
    while (!stk.empty())
    {
        Node& n = stk.back();
        if (n.is_choice)
        {
            if (n.cur + 1 < n.n) { ++n.cur; break; }
        }
        else
        {
            n.done |= 1u << n.chosen;
            uint32_t todo = n.backtrack & ~n.done & ~n.sleep & n.enabled;
            if (todo)
            {
                n.chosen = __builtin_ctz(todo);
                break;
            }
        }
        stk.pop_back();
    }
    if (stk.empty()) return false;
    replay_len = stk.size();
    // events strictly before the branching node keep their clocks
    size_t keep = 0;
    size_t lim = stk.size() - 1;
    if (stk.back().is_choice)
    {
        // the event whose execution contains this choice is replayed identically; its op may be refined differently
        for (keep = 0; keep < trace_len; ++keep) if ((size_t)trace[keep].node >= lim) break;
        if (keep > 0) --keep;
    }
    else
        for (keep = 0; keep < trace_len; ++keep) if ((size_t)trace[keep].node >= lim) break;
    trace_valid = keep;
    return true;
}

// ------------------------------------------------------------------------------------------------
// symbolisation (only for reports)
// ------------------------------------------------------------------------------------------------
bool want_symbols = false;

std::string modname(uintptr_t pc)
{
    Dl_info i;
    if (dladdr((void*)pc, &i) && i.dli_fname) return fmt("%s+0x%lx", i.dli_fname, pc - (uintptr_t)i.dli_fbase);
    return fmt("0x%lx", pc);
}

std::string symbolize(uintptr_t pc)
{
    RT rt;
    if (!want_symbols || !pc) return fmt("pc 0x%lx", pc);
    Dl_info i;
    if (!dladdr((void*)(pc - 1), &i) || !i.dli_fname) return fmt("0x%lx", pc);
    static std::map<uintptr_t, std::string>* cache = new std::map<uintptr_t, std::string>();
    auto it = cache->find(pc);
    if (it != cache->end()) return it->second;
    std::string cmd = fmt("addr2line -Cfie %s 0x%lx 2>/dev/null", i.dli_fname, pc - 1 - (uintptr_t)i.dli_fbase);
    std::string r;
    FILE* p = popen(cmd.c_str(), "r");
    if (p)
    {
        char l[2048]; int n = 0; std::string fn;
        while (fgets(l, sizeof l, p) && n < 12)
        {
            std::string s(l);
            while (!s.empty() && (s.back() == '\n')) s.pop_back();
            if (n % 2 == 0) { fn = s; size_t a = fn.find('('); if (a != std::string::npos) fn = fn.substr(0, a); if (fn.size() > 90) fn = fn.substr(0, 90) + "..."; }
            else
            {
                size_t sl = s.rfind('/');
                std::string file = sl == std::string::npos ? s : s.substr(sl + 1);
                size_t sp = file.find(" (disc"); if (sp != std::string::npos) file = file.substr(0, sp);
                bool std_hdr = s.find("/usr/include/c++") != std::string::npos || s.find("/bits/") != std::string::npos || s.find("/ext/") != std::string::npos;
                if (!std_hdr || r.empty())
                {
                    if (!r.empty()) r += " <- ";
                    r += fn + " (" + file + ")";
                    if (!std_hdr) { break; }
                }
            }
            ++n;
        }
        pclose(p);
    }
    if (r.empty()) r = modname(pc);
    (*cache)[pc] = r;
    return r;
}

// ------------------------------------------------------------------------------------------------
// reporting
// ------------------------------------------------------------------------------------------------


std::vector<int> current_choices()
{
    std::vector<int> r;
    for (size_t i = 0; i < depth && i < stk.size(); ++i) r.push_back(stk[i].is_choice ? stk[i].cur : stk[i].chosen);
    return r;
}

std::string trace_text()
{
    std::string s;
    size_t k = 0;
    for (size_t i = 0; i < depth && i < stk.size(); ++i)
    {
        Node& n = stk[i];
        if (n.is_choice) { s += fmt("        choice %d of %d\n", n.cur, n.n); continue; }
        const Op& o = n.pend[n.chosen];
        s += fmt("  %3zu: T%d %-14s %-8s %s\n", k++, n.chosen, kind_name[o.kind], is_mem(o.kind) ? fmt("@%lx", o.addr & 0xffffff).c_str() : "", symbolize(o.pc).c_str());
    }
    return s;
}

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

void write_replay(const std::string& file, const std::vector<int>& ch, const std::string& text)
{
    FILE* f = fopen(file.c_str(), "w");
    if (!f) return;
    fprintf(f, "harness %s\nkind %s\nchoices", H->name.c_str(), viol_kind.c_str());
    for (int c : ch) fprintf(f, " %d", c);
    fprintf(f, "\n--\n%s\n%s", viol_msg.c_str(), text.c_str());
    fclose(f);
}

void print_stats(const char* status)
{
    printf("{\"harness\":%s,\"status\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"choices\":%lu,\"sleep_blocked\":%lu,\"max_depth\":%lu,\"race_checks\":%lu,\"capped\":%s,\"pb\":%ld,\"bounded_out\":%lu,\"outcomes\":{",
        jstr(H->name).c_str(), status, stats.executions, stats.transitions, stats.nodes, stats.choices, stats.sleepblocked, stats.maxdepth, stats.races_checked,
        stats.capped ? "true" : "false", (H->flags & F_PB) ? H->p0 : -1l, stats.bounded_out);
    bool first = true; int n = 0;
    for (auto& o : stats.outcomes) { if (n++ >= 40 && !getenv("MC_ALL_OUTCOMES")) break; printf("%s%s:%lu", first ? "" : ",", jstr(o.first).c_str(), o.second); first = false; }
    printf("},\"distinct_outcomes\":%zu,\"kind\":%s,\"message\":%s,\"replay\":%s}\n", stats.outcomes.size(), jstr(viol_kind).c_str(), jstr(viol_msg).c_str(), jstr(replay_file).c_str());
    fflush(stdout);
}

void on_crash(int sig)
{
    // the library crashed inside the current schedule
    static int once = 0;
    if (once++) _exit(4);
    in_rt = 1;
    std::vector<int> ch = current_choices();
    viol_kind = sig == SIGALRM ? "hang" : "crash";
    viol_msg = sig == SIGALRM ? "execution did not finish (endless loop without visible steps)"
             : fmt("signal %d (%s) in thread %d", sig, strsignal(sig), cur);
    replay_file = outdir + "/" + H->name + ".replay";
    write_replay(replay_file, ch, "");
    print_stats("violation");
    fflush(stdout);
    _exit(1);
}

unsigned long last_progress = 0; int stuck = 0;
void on_timer(int)
{
    if (exec_active && progress_counter == last_progress) { if (++stuck >= 4) on_crash(SIGALRM); }
    else stuck = 0;
    last_progress = progress_counter;
}

int explore(double time_limit)
{
    stk.clear(); trace.clear(); trace_len = 0; trace_valid = 0; replay_len = 0;
    stats = Stats();
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    while (true)
    {
        execute();
        ++stats.executions;
        if (depth > stats.maxdepth) stats.maxdepth = depth;
        if (abort_reason == AB_VIOLATION)
        {
            std::string kind = viol_kind, msg = viol_msg;
            std::vector<int> ch = current_choices();
            first_kind = kind; first_msg = msg; first_choices = ch;
            // replay twice, with symbols: the same violation is expected
            for (int r = 0; r < 2; ++r)
            {
                want_symbols = true;
                free_replay = true; forced = ch; forced_pos = 0; stk.clear(); trace.clear(); trace_valid = 0; replay_len = 0;
                viol_kind.clear(); viol_msg.clear();
                execute();
                if (abort_reason != AB_VIOLATION || viol_kind != kind) report_irreproducible();
            }
            first_kind.clear();
            std::string text = trace_text();
            replay_file = outdir + "/" + H->name + ".replay";
            write_replay(replay_file, ch, text);
            print_stats("violation");
            fprintf(stderr, "VIOLATED %s: %s: %s\n%s", H->name.c_str(), viol_kind.c_str(), viol_msg.c_str(), text.c_str());
            return 1;
        }
        if (stk.size() > depth) { stk.resize(depth); }
        if (abort_reason == AB_NONE || abort_reason == AB_SLEEP) analyse();
        trace_valid = trace_len;
        if (!backtrack()) break;
        if (H->p1 && (long)stats.executions >= H->p1) { stats.capped = true; break; }
        if ((stats.executions & 63) == 0 && time_limit > 0)
        {
            timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > time_limit) { stats.capped = true; break; }
        }
    }
    print_stats(stats.capped ? "capped" : "ok");
    return 0;
}

} // namespace

// ------------------------------------------------------------------------------------------------
// interface for harnesses
// ------------------------------------------------------------------------------------------------
EXPORT void mc_register(const char* name, void (*fn)(), unsigned flags, long p0, long p1)
{
    RT rt;
    harnesses().push_back(Harness{ name, fn, flags, p0, p1 });
}

EXPORT void mc_parallel(int n, void (**fns)(void*), void** args, const unsigned* fl)
{
    if (cur != 0 || n >= MAXT) { fprintf(stderr, "mc: bad use of parallel\n"); _exit(3); }
    ++in_rt;
    racemap->clear(); locs->clear();
    nthreads = n;
    for (int t = 1; t <= n; ++t)
    {
        init_fiber(t);
        fibers[t].fn = fns[t - 1];
        fibers[t].arg = args[t - 1];
        fibers[t].flags = fl[t - 1];
        fibers[t].T = VC();
        fibers[t].T.c[t] = 1;
    }
    to_explorer();
    --in_rt;
}

EXPORT int mc_choose(int n) { return choose_impl(n); }
EXPORT void mc_fail(const char* kind, const char* msg) { violation(kind, msg); }
EXPORT int mc_tid() { return cur; }
EXPORT long mc_tick() { return ++tick_no; }
EXPORT void mc_quiet(int d) { if (cur >= 0) fibers[cur].quiet += d; }
EXPORT int mc_thread_dead(int i) { return fibers[i].dead; }
EXPORT long mc_live_blocks() { return live_blocks; }
EXPORT int mc_tier() { return tier; }
EXPORT int mc_in_parallel() { return in_par; }
EXPORT int mc_budget(long b) { if (cur > 0) { fibers[cur].budget = b; fibers[cur].op_steps = 0; } return 0; }
EXPORT void mc_outcome(const char* s) { RT rt; stats.outcomes[s]++; }

namespace {
// crashable threads may stop for good before any visible operation
void maybe_die()
{
    Fiber& f = fibers[cur];
    if (!(f.flags & T_CRASH)) return;
    if (choose_impl(2) == 1)
    {
        f.dead = true;
        ++stats.crashes;
        to_explorer();
        abort();
    }
}
bool visible(const Op& op)
{
    if (!in_par || cur <= 0 || fibers[cur].quiet) return false;
    if (fibers[cur].flags & T_CRASH) { RT rt; maybe_die(); }
    return announce(op);
}
}

EXPORT void mc_advance(int64_t ns)
{
    Op o; o.kind = K_CLKW; o.pc = (uintptr_t)__builtin_return_address(0);
    if (in_rt == 0) visible(o);
    vtime += ns;
}
EXPORT int64_t mc_now() { return vtime; }
EXPORT void mc_call(int op) { Op o; o.kind = K_CALL; o.addr = op; o.pc = (uintptr_t)__builtin_return_address(0); visible(o); }
EXPORT void mc_ret(int op) { Op o; o.kind = K_RET; o.addr = op; o.pc = (uintptr_t)__builtin_return_address(0); visible(o); }

// time
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((visibility("default"))) steady_clock::time_point steady_clock::now() noexcept
{
    if (!exec_active) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); }
    if (!in_rt) { Op o; o.kind = K_CLKR; o.pc = (uintptr_t)__builtin_return_address(0); visible(o); }
    return time_point(duration(vtime));
}
__attribute__((visibility("default"))) system_clock::time_point system_clock::now() noexcept
{
    if (!exec_active) { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); }
    if (!in_rt) { Op o; o.kind = K_CLKR; o.pc = (uintptr_t)__builtin_return_address(0); visible(o); }
    return time_point(duration(vtime));
}
}}}

// heap
__attribute__((visibility("default"))) void* operator new(size_t n)
{
    if (exec_active && !in_rt) return arena_alloc(n, 16);
    void* p = malloc(n ? n : 1); if (!p) abort(); return p;
}
__attribute__((visibility("default"))) void* operator new[](size_t n) { return operator new(n); }
__attribute__((visibility("default"))) void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
__attribute__((visibility("default"))) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
__attribute__((visibility("default"))) void* operator new(size_t n, std::align_val_t a)
{
    if (exec_active && !in_rt) return arena_alloc(n, (size_t)a);
    void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); if (!p) abort(); return p;
}
__attribute__((visibility("default"))) void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static inline void mc_delete(void* p, uintptr_t pc)
{
    if (!p) return;
    if (in_arena((uintptr_t)p))
    {
        if (!exec_active || in_rt) return;
        if ((H->flags & F_PLAIN_VISIBLE) && in_par)
        {
            Op o; o.kind = K_PW; o.addr = (uintptr_t)p; o.pc = pc;
            { RT rt; auto it = blocks->find((uintptr_t)p); o.size = it == blocks->end() ? 8 : (uint16_t)std::min<uint32_t>(it->second.size, 65535); }
            visible(o);
        }
        arena_free(p, pc);
        return;
    }
    free(p);
}
#define DELPC (uintptr_t)__builtin_return_address(0)
// exception objects live in the arena as well (libstdc++ keeps 128 bytes in front of them)
EXPORT void* __cxa_allocate_exception(size_t n) noexcept
{
    static void* (*real)(size_t); if (!real) { RT rt; real = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception"); }
    if (!exec_active || in_rt) return real(n);
    char* p = (char*)arena_alloc(n + 128, 16);
    { RT rt; memset(p, 0, 128); }
    return p + 128;
}
EXPORT void __cxa_free_exception(void* p) noexcept
{
    static void (*real)(void*); if (!real) { RT rt; real = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_free_exception"); }
    if (in_arena((uintptr_t)p)) mc_delete((char*)p - 128, DELPC);
    else real(p);
}
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete[](void* p) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete(void* p, std::align_val_t) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete[](void* p, std::align_val_t) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t, std::align_val_t) noexcept { mc_delete(p, DELPC); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_delete(p, DELPC); }

// mutexes
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!exec_active || in_rt) return 0;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    Op o; o.kind = K_LOCK; o.addr = (uintptr_t)m; o.pc = pc;
    {
        RT rt;
        check_addr(o.addr, 8, true, pc);
        auto& x = (*mtxs)[o.addr];
        if (x.owner == cur && recursive(o.addr)) { ++x.count; return 0; }   // not a scheduling point
    }
    if (visible(o)) { RT rt; auto& x = (*mtxs)[o.addr]; x.owner = cur; ++x.count; join(fibers[cur].T, x.L); bump(); }
    else
    {
        RT rt;
        auto& x = (*mtxs)[o.addr];
        if (x.owner >= 0 && !(x.owner == cur && recursive(o.addr))) violation("deadlock", fmt("a thread waits for a mutex that is never released, at %s", symbolize(pc).c_str()));
        x.owner = cur; ++x.count;
    }
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!exec_active || in_rt) return 0;
    Op o; o.kind = K_TRYLOCK; o.addr = (uintptr_t)m; o.pc = (uintptr_t)__builtin_return_address(0);
    visible(o);
    RT rt;
    auto& x = (*mtxs)[o.addr];
    if (x.owner >= 0 && !(x.owner == cur && recursive(o.addr))) return 16; // EBUSY
    x.owner = cur; ++x.count;
    if (cur > 0) { join(fibers[cur].T, x.L); bump(); }
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!exec_active || in_rt) return 0;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    Op o; o.kind = K_UNLOCK; o.addr = (uintptr_t)m; o.pc = pc;
    {
        RT rt;
        auto& x = (*mtxs)[o.addr];
        if (x.owner == cur && x.count > 1) { --x.count; return 0; }
    }
    visible(o);
    RT rt;
    auto& x = (*mtxs)[o.addr];
    if (x.owner != cur) violation("lock", fmt("unlock of a mutex not held by the thread, at %s", symbolize(pc).c_str()));
    if (--x.count > 0) return 0;
    x.count = 0;
    x.owner = -1;
    if (cur > 0) { x.L = fibers[cur].T; bump(); }
    return 0;
}
// read-write locks, should the library ever use them: treated as exclusive for writers and, conservatively, for readers
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return pthread_mutex_trylock((pthread_mutex_t*)m); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return pthread_mutex_trylock((pthread_mutex_t*)m); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
EXPORT int sched_yield()
{
    if (!exec_active || in_rt) return 0;
    Op o; o.kind = K_YIELD; o.pc = (uintptr_t)__builtin_return_address(0);
    visible(o);
    return 0;
}
EXPORT int nanosleep(const timespec*, timespec*) { return sched_yield(); }
EXPORT int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }

// static initialisation guards
EXPORT int __cxa_guard_acquire(long long* g)
{
    if (*(volatile char*)g) return 0;
    if (!exec_active || in_rt || cur <= 0)
    {
        if (((volatile char*)g)[1]) violation("deadlock", "recursive static initialisation");
        ((volatile char*)g)[1] = 1;
        return 1;
    }
    Op o; o.kind = K_GACQ; o.addr = (uintptr_t)g; o.pc = (uintptr_t)__builtin_return_address(0);
    visible(o);
    RT rt;
    auto& x = (*grds)[o.addr];
    if (*(volatile char*)g) { join(fibers[cur].T, x.L); return 0; }
    x.owner = cur;
    return 1;
}
EXPORT void __cxa_guard_release(long long* g)
{
    if (!exec_active || in_rt || cur <= 0) { ((volatile char*)g)[1] = 0; *(volatile char*)g = 1; return; }
    Op o; o.kind = K_GREL; o.addr = (uintptr_t)g; o.pc = (uintptr_t)__builtin_return_address(0);
    visible(o);
    RT rt;
    auto& x = (*grds)[o.addr];
    x.owner = -1;
    x.L = fibers[cur].T;
    // the fast path reads the guard byte with an acquire load
    auto& l = (*locs)[(uintptr_t)g];
    l.L = fibers[cur].T;
    bump();
    *(volatile char*)g = 1;
}
EXPORT void __cxa_guard_abort(long long* g)
{
    ((volatile char*)g)[1] = 0;
    if (cur > 0) { RT rt; auto& x = (*grds)[(uintptr_t)g]; x.owner = -1; }
}
EXPORT int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }

// ------------------------------------------------------------------------------------------------
// tsan callbacks: plain accesses
// ------------------------------------------------------------------------------------------------
namespace {
inline void plain(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if (!exec_active || in_rt || cur < 0) return;
    if (in_arena(a)) { RT rt; check_addr(a, n, w, pc); }
    if (!in_par || cur <= 0 || fibers[cur].quiet) return;
    uintptr_t sb = (uintptr_t)fibers[cur].stack;
    if (a >= sb && a < sb + STACK_SZ) return;
    if (in_tls(a)) return;
    if (H->flags & F_PLAIN_VISIBLE)
    {
        Op o; o.kind = w ? K_PW : K_PR; o.addr = a; o.size = (uint16_t)n; o.pc = pc;
        visible(o);
        if (in_arena(a)) { RT rt; check_addr(a, n, w, pc); }     // may have been freed while waiting
    }
    RT rt;
    race_access(a, n, w, false, pc);
}
}
#define PC ((uintptr_t)__builtin_return_address(0))
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
    EXPORT void __tsan_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    EXPORT void __tsan_write##n(void* a) { plain((uintptr_t)a, n, true, PC); } \
    EXPORT void __tsan_unaligned_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void* a) { plain((uintptr_t)a, n, true, PC); } \
    EXPORT void __tsan_volatile_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void* a) { plain((uintptr_t)a, n, true, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##n(void* a) { plain((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, size_t n) { if (n) plain((uintptr_t)a, n, false, PC); }
EXPORT void __tsan_write_range(void* a, size_t n) { if (n) plain((uintptr_t)a, n, true, PC); }
EXPORT void __tsan_vptr_update(void** a, void* v) { if (*a != v) plain((uintptr_t)a, 8, true, PC); }
EXPORT void __tsan_vptr_read(void** a) { plain((uintptr_t)a, 8, false, PC); }

EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n && exec_active && !in_rt) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); }
    return memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n && exec_active && !in_rt) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); }
    return memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n)
{
    if (n && exec_active && !in_rt) plain((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}

// ------------------------------------------------------------------------------------------------
// atomics
// ------------------------------------------------------------------------------------------------
namespace {

void refine(Kind k) { if (in_par && cur > 0 && trace_len > 0 && trace[trace_len - 1].tid == cur) trace[trace_len - 1].op.kind = k; }

bool atomic_begin(Kind k, const volatile void* p, size_t n, int mo, uintptr_t pc)
{
    if (!exec_active || in_rt || cur < 0) return false;
    if (in_arena((uintptr_t)p)) { RT rt; check_addr((uintptr_t)p, n, k != K_LOAD, pc); }
    if (!in_par || cur <= 0 || fibers[cur].quiet) return false;
    uintptr_t sb = (uintptr_t)fibers[cur].stack;
    if ((uintptr_t)p >= sb && (uintptr_t)p < sb + STACK_SZ) return false;
    Op o; o.kind = k; o.order = (uint8_t)mo; o.addr = (uintptr_t)p; o.size = (uint16_t)n; o.pc = pc;
    visible(o);
    RT rt;
    if (in_arena((uintptr_t)p)) check_addr((uintptr_t)p, n, k != K_LOAD, pc);   // may have been freed while waiting
    return true;
}

Loc& loc(uintptr_t a, const volatile void* p, size_t n)
{
    Loc& l = (*locs)[a];
    if ((H->flags & F_STALE) && l.st.empty())
    {
        StoreRec r; memset(r.val, 0, 16); memcpy(r.val, (const void*)p, n > 16 ? 16 : n); r.tid = -1; r.clk = 0; r.rel = l.L; r.has_rel = true;
        l.st.push_back(r);
    }
    return l;
}
void note_store(Loc& l, const void* v, size_t n)
{
    if (!(H->flags & F_STALE)) return;
    StoreRec r; memset(r.val, 0, 16); memcpy(r.val, v, n > 16 ? 16 : n); r.tid = cur; r.clk = fibers[cur].T.c[cur]; r.rel = l.L;
    l.st.push_back(r);
    l.seen[cur] = (int)l.st.size() - 1;
}

void do_load(const volatile void* p, void* out, size_t n, int mo, uintptr_t pc)
{
    if (!atomic_begin(K_LOAD, p, n, mo, pc)) { memcpy(out, (const void*)p, n); return; }
    RT rt;
    race_access((uintptr_t)p, n, false, true, pc);
    Loc& l = loc((uintptr_t)p, p, n);
    if ((H->flags & F_STALE) && n <= 16)
    {
        Fiber& f = fibers[cur];
        int last = (int)l.st.size() - 1, lo = l.seen[cur];
        for (int i = last; i > lo; --i)
            if (l.st[i].tid >= 0 && f.T.c[l.st[i].tid] >= l.st[i].clk && l.st[i].clk > 0 && (l.st[i].tid == cur || f.T.c[l.st[i].tid] >= l.st[i].clk)) { lo = i; break; }
        for (auto& r : l.reads) if (f.T.c[r.tid] >= r.clk && r.idx > lo) lo = r.idx;
        int idx = last;
        if (mo != 5 && lo < last) { idx = last - choose_impl(last - lo + 1); }
        l.seen[cur] = idx;
        l.reads.push_back(Loc::Rd{ cur, f.T.c[cur], idx });
        memcpy(out, l.st[idx].val, n);
        VC& L = l.st[idx].rel;
        if (acq(mo)) join(f.T, L); else join(f.acqp, L);
        bump();
        return;
    }
    memcpy(out, (const void*)p, n);
    hb_load(l, mo);
}

void do_store(volatile void* p, const void* v, size_t n, int mo, uintptr_t pc)
{
    if (!atomic_begin(K_STORE, p, n, mo, pc)) { memcpy((void*)p, v, n); return; }
    RT rt;
    race_access((uintptr_t)p, n, true, true, pc);
    Loc& l = loc((uintptr_t)p, p, n);
    int c = fibers[cur].T.c[cur];
    hb_store(l, mo, false);
    memcpy((void*)p, v, n);
    note_store(l, v, n);
    if (H->flags & F_STALE) { l.st.back().clk = c; }
}

template<typename T, typename F>
T do_rmw(volatile T* p, int mo, uintptr_t pc, F fn)
{
    if (!atomic_begin(K_RMW, p, sizeof(T), mo, pc)) { T o = *p; *p = fn(o); return o; }
    RT rt;
    race_access((uintptr_t)p, sizeof(T), true, true, pc);
    Loc& l = loc((uintptr_t)p, p, sizeof(T));
    T o = *p;
    T nv = fn(o);
    hb_load(l, mo);
    int c = fibers[cur].T.c[cur];
    hb_store(l, mo, true);
    *p = nv;
    note_store(l, &nv, sizeof(T));
    if (H->flags & F_STALE) l.st.back().clk = c;
    return o;
}

void do_exchange(volatile void* p, const void* v, void* out, size_t n, int mo, uintptr_t pc)
{
    bool par = atomic_begin(K_RMW, p, n, mo, pc);
    unsigned char tmp[256]; memcpy(tmp, v, n);
    memcpy(out, (const void*)p, n);
    if (!par) { memcpy((void*)p, tmp, n); return; }
    RT rt;
    race_access((uintptr_t)p, n, true, true, pc);
    Loc& l = loc((uintptr_t)p, p, n);
    hb_load(l, mo);
    int c = fibers[cur].T.c[cur];
    hb_store(l, mo, true);
    memcpy((void*)p, tmp, n);
    note_store(l, tmp, n);
    if (H->flags & F_STALE) l.st.back().clk = c;
}

bool do_cas(volatile void* p, void* expected, const void* desired, size_t n, int mo, int fmo, bool weak, uintptr_t pc)
{
    if (!atomic_begin(K_RMW, p, n, mo, pc))
    {
        if (memcmp((const void*)p, expected, n) == 0) { memcpy((void*)p, desired, n); return true; }
        memcpy(expected, (const void*)p, n);
        return false;
    }
    RT rt;
    Loc& l = loc((uintptr_t)p, p, n);
    bool eq = memcmp((const void*)p, expected, n) == 0;
    if (eq && weak && weak_budget > 0 && choose_impl(2) == 1) { --weak_budget; eq = false; }
    if (!eq)
    {
        race_access((uintptr_t)p, n, false, true, pc);
        hb_load(l, fmo);
        memcpy(expected, (const void*)p, n);
        refine(K_LOAD);
        if (H->flags & F_STALE) l.seen[cur] = (int)l.st.size() - 1;
        return false;
    }
    race_access((uintptr_t)p, n, true, true, pc);
    hb_load(l, mo);
    int c = fibers[cur].T.c[cur];
    hb_store(l, mo, true);
    memcpy((void*)p, desired, n);
    note_store(l, desired, n);
    if (H->flags & F_STALE) l.st.back().clk = c;
    return true;
}

} // namespace

typedef unsigned __int128 u128;
#define ATOMICS(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo) { T o; do_load(p, &o, sizeof(T), mo, PC); return o; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { do_store(p, &v, sizeof(T), mo, PC); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T) { return v; }); } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)(o + v); }); } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)(o - v); }); } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)(o & v); }); } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)(o | v); }); } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)(o ^ v); }); } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return do_rmw(p, mo, PC, [&](T o) { return (T)~(o & v); }); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return do_cas(p, e, &d, sizeof(T), mo, fmo, false, PC); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return do_cas(p, e, &d, sizeof(T), mo, fmo, true, PC); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { do_cas(p, &e, &d, sizeof(T), mo, fmo, false, PC); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, u128)

// libatomic entry points (types the compiler does not inline)
EXPORT void mc_atomic_load(size_t n, const void* p, void* o, int mo) __asm__("__atomic_load");
EXPORT void mc_atomic_load(size_t n, const void* p, void* o, int mo) { do_load(p, o, n, mo, PC); }
EXPORT void mc_atomic_store(size_t n, void* p, void* v, int mo) __asm__("__atomic_store");
EXPORT void mc_atomic_store(size_t n, void* p, void* v, int mo) { do_store(p, v, n, mo, PC); }
EXPORT void mc_atomic_exchange(size_t n, void* p, void* v, void* o, int mo) __asm__("__atomic_exchange");
EXPORT void mc_atomic_exchange(size_t n, void* p, void* v, void* o, int mo) { do_exchange(p, v, o, n, mo, PC); }
EXPORT bool mc_atomic_cas(size_t n, void* p, void* e, void* d, int mo, int fmo) __asm__("__atomic_compare_exchange");
EXPORT bool mc_atomic_cas(size_t n, void* p, void* e, void* d, int mo, int fmo) { return do_cas(p, e, d, n, mo, fmo, false, PC); }
EXPORT u128 mc_atomic_load_16(const void* p, int mo) __asm__("__atomic_load_16");
EXPORT u128 mc_atomic_load_16(const void* p, int mo) { u128 o; do_load(p, &o, 16, mo, PC); return o; }
EXPORT void mc_atomic_store_16(void* p, u128 v, int mo) __asm__("__atomic_store_16");
EXPORT void mc_atomic_store_16(void* p, u128 v, int mo) { do_store(p, &v, 16, mo, PC); }
EXPORT u128 mc_atomic_exchange_16(void* p, u128 v, int mo) __asm__("__atomic_exchange_16");
EXPORT u128 mc_atomic_exchange_16(void* p, u128 v, int mo) { u128 o; do_exchange(p, &v, &o, 16, mo, PC); return o; }
EXPORT bool mc_atomic_cas_16(void* p, void* e, u128 d, bool weak, int mo, int fmo) __asm__("__atomic_compare_exchange_16");
EXPORT bool mc_atomic_cas_16(void* p, void* e, u128 d, bool weak, int mo, int fmo) { return do_cas(p, e, &d, 16, mo, fmo, weak, PC); }
EXPORT bool mc_is_lock_free(size_t n, void*) __asm__("__atomic_is_lock_free");
EXPORT bool mc_is_lock_free(size_t n, void*) { return n <= 16; }

EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!exec_active || in_rt || cur <= 0 || !in_par) return;
    Fiber& f = fibers[cur];
    if (mo == 5) { join(f.T, sc_fence); }
    if (acq(mo)) join(f.T, f.acqp);
    if (rel(mo)) f.relf = f.T;
    if (mo == 5) { join(sc_fence, f.T); f.relf = f.T; }
    bump();
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------
EXPORT int mc_rt_main(int argc, char** argv, char* db, char* de)
{
    in_rt = 1;
    __libc_single_threaded = 0;
    racemap = new std::unordered_map<uintptr_t, std::vector<Acc>>();
    locs = new std::unordered_map<uintptr_t, Loc>();
    mtxs = new std::unordered_map<uintptr_t, Mtx>();
    grds = new std::unordered_map<uintptr_t, Grd>();
    arena_init();
    std::string name, replay;
    double tl = 0;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--thorough") tier = 1;
        else if (a == "--out" && i + 1 < argc) outdir = argv[++i];
        else if (a == "--time" && i + 1 < argc) tl = atof(argv[++i]);
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else name = a;
    }
    if (list) { for (auto& h : harnesses()) printf("%s %u\n", h.name.c_str(), h.flags); fflush(stdout); _exit(0); }
    std::vector<int> rc;
    if (!replay.empty())
    {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) { perror("replay"); _exit(3); }
        char line[1 << 16];
        while (fgets(line, sizeof line, f))
        {
            std::string s(line);
            while (!s.empty() && s.back() == '\n') s.pop_back();
            if (s == "--") break;
            if (s.compare(0, 8, "harness ") == 0) name = s.substr(8);
            if (s.compare(0, 7, "choices") == 0) { const char* p = s.c_str() + 7; char* e; while (true) { long v = strtol(p, &e, 10); if (e == p) break; rc.push_back((int)v); p = e; } }
        }
        fclose(f);
    }
    for (auto& h : harnesses()) if (h.name == name) H = &h;
    if (!H) { fprintf(stderr, "mc: no harness %s\n", name.c_str()); _exit(3); }

    stack_t ss {}; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    struct sigaction sa {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    struct sigaction st {}; st.sa_handler = on_timer; st.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &st, nullptr);
    itimerval tv {}; tv.it_interval.tv_sec = 15; tv.it_value.tv_sec = 15; setitimer(ITIMER_REAL, &tv, nullptr);

    tls_setup();
    data_b = db; data_e = de;
    data_copy = (char*)malloc(de - db);
    memcpy(data_copy, db, de - db);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    int r;
    if (!replay.empty())
    {
        want_symbols = true; free_replay = true; forced = rc; forced_pos = 0;
        execute();
        printf("%s", trace_text().c_str());
        if (abort_reason == AB_VIOLATION) { printf("VIOLATED %s: %s: %s\n", name.c_str(), viol_kind.c_str(), viol_msg.c_str()); r = 1; }
        else { printf("no violation on replay\n"); r = 0; }
    }
    else r = explore(tl);
    fflush(stdout);
    _exit(r);
}
