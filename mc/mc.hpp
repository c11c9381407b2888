// Harness side of the model checker (engine A).  See runtime.cpp for the explorer.
// A harness translation unit is compiled with -fsanitize=thread and linked against libmc.so,
// which provides the __tsan_* callbacks.
#ifndef MC_HPP
#define MC_HPP

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>
#include <utility>

namespace mc
{

// ---- primitives implemented by libmc.so -------------------------------------------------------
extern "C" {
void mc_register(const char* name, void (*fn)(), unsigned flags, long p0, long p1);
int  mc_rt_main(int argc, char** argv, char* data_begin, char* data_end);
void mc_parallel(int n, void (**fns)(void*), void** args, const unsigned* flags);
int  mc_choose(int n);
void mc_fail(const char* kind, const char* msg) __attribute__((noreturn));
void mc_advance(int64_t ns);
int64_t mc_now();
void mc_call(int op);
void mc_ret(int op);
void mc_outcome(const char* s);
int  mc_tid();
long mc_tick();          // monotonically increasing stamp of visible operations (no scheduling point)
void mc_quiet(int delta);
int  mc_budget(long steps); // set own-step budget for the current thread's current operation (0 = off)
int  mc_thread_dead(int i);
long mc_live_blocks();
int  mc_tier();          // 0 quick, 1 thorough
int  mc_in_parallel();
}

enum harness_flags : unsigned
{
    F_NONE = 0,
    F_PLAIN_VISIBLE = 1,   // plain accesses are scheduling points as well
    F_NO_RACE = 2,         // do not report data races
    F_PB = 4,              // context-bounded search (p0 = preemption bound) instead of DPOR
    F_WEAK_CAS = 8,        // one spurious failure of compare_exchange_weak is explored
    F_THOROUGH = 16,       // only run in the thorough tier
    F_STALE = 32,          // non-seq_cst atomic loads may return stale values (C++11 coherence respected)
    F_LOCKFREE = 64,       // report blocking / unbounded steps of a thread as violation
    F_LEAK = 128,          // at the end of an execution no block allocated by it may be live
};

enum thread_flags : unsigned
{
    T_NONE = 0,
    T_CRASH = 1,           // this thread may stop forever before any of its visible operations
};

inline int choose(int n) { return mc_choose(n); }
inline void advance(int64_t ns) { mc_advance(ns); }
inline bool thorough() { return mc_tier() != 0; }

struct quiet
{
    quiet() { mc_quiet(1); }
    ~quiet() { mc_quiet(-1); }
};

template<typename... A>
[[noreturn]] inline void fail(const char* fmt, A... a)
{
    char buf[2048];
    snprintf(buf, sizeof buf, fmt, a...);
    mc_fail("assert", buf);
}
[[noreturn]] inline void fail_str(const std::string& s) { mc_fail("assert", s.c_str()); }

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

inline void outcome(const std::string& s) { mc_outcome(s.c_str()); }

namespace detail
{
template<typename F> void tramp(void* p) { (*static_cast<F*>(p))(); }
}

// run the given callables as concurrent threads; returns when all of them are done (or dead)
template<typename... F>
void parallel(F&&... f)
{
    void (*fns[])(void*) = { &detail::tramp<typename std::remove_reference<F>::type>... };
    void* args[] = { const_cast<void*>(static_cast<const void*>(&f))... };
    unsigned flags[sizeof...(F)] = {};
    mc_parallel(sizeof...(F), fns, args, flags);
}

// same, but thread i gets flags[i]
template<typename... F>
void parallel_f(std::initializer_list<unsigned> fl, F&&... f)
{
    void (*fns[])(void*) = { &detail::tramp<typename std::remove_reference<F>::type>... };
    void* args[] = { const_cast<void*>(static_cast<const void*>(&f))... };
    unsigned flags[sizeof...(F)] = {};
    int i = 0;
    for (auto x : fl) if (i < (int)sizeof...(F)) flags[i++] = x;
    mc_parallel(sizeof...(F), fns, args, flags);
}

// ---- histories and linearizability ------------------------------------------------------------
// An operation has a call and a return stamp; both are visible events that conflict only with
// returns/calls of other threads, so every real-time order is explored.
struct op_rec
{
    int thread = 0, code = 0;
    long long arg = 0, ret = 0, ret2 = 0;
    long call = 0, done = 0;  // done == 0: never returned
};

template<int N = 16>
struct history
{
    op_rec ops[N];
    int n = 0;

    op_rec* begin(int code, long long arg = 0)
    {
        op_rec* o;
        {
            quiet q;
            o = &ops[n++];
            o->thread = mc_tid();
            o->code = code;
            o->arg = arg;
        }
        mc_call(code);
        quiet q;
        o->call = mc_tick();
        return o;
    }
    void end(op_rec* o, long long ret = 0, long long ret2 = 0)
    {
        mc_ret(o->code);
        quiet q;
        o->ret = ret;
        o->ret2 = ret2;
        o->done = mc_tick();
    }
};

// brute-force linearizability: State is copyable, step(State&, const op_rec&) -> bool says whether the
// recorded return value is what the sequential object returns in that state.  Operations that never
// returned may or may not have taken effect (step_pending applies them without checking).
template<typename State, typename Step>
bool linearizable(const op_rec* ops, int n, const State& init, Step step)
{
    struct rec
    {
        static bool go(const op_rec* ops, int n, unsigned done, const State& s, Step& step)
        {
            bool all = true;
            for (int i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].done) all = false;
            if (all) return true;
            for (int i = 0; i < n; ++i)
            {
                if (done >> i & 1) continue;
                bool minimal = true;
                for (int j = 0; j < n && minimal; ++j)
                    if (!(done >> j & 1) && j != i && ops[j].done && ops[j].done < ops[i].call) minimal = false;
                if (!minimal) continue;
                State c(s);
                if (step(c, ops[i]) && go(ops, n, done | 1u << i, c, step)) return true;
            }
            return false;
        }
    };
    return rec::go(ops, n, 0u, init, step);
}

struct registrar
{
    registrar(const char* name, void (*fn)(), unsigned flags = 0, long p0 = 0, long p1 = 0) { mc_register(name, fn, flags, p0, p1); }
};

}

// MC_HARNESS(name, flags, p0 = bound, p1 = execution cap)
#define MC_HARNESS(name, ...) \
    static void mc_h_##name(); \
    static ::mc::registrar mc_r_##name(#name, &mc_h_##name, ##__VA_ARGS__); \
    static void mc_h_##name()

#define MC_MAIN() \
    extern "C" char __data_start, _end; \
    int main(int argc, char** argv) { return ::mc::mc_rt_main(argc, argv, &__data_start, &_end); }

#endif
