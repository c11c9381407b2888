// Harness side of engine B: exhaustive exploration of operation sequences, inputs and environment
// answers (clock, random numbers, exceptions) on the real objects.  A harness is a function that asks
// choose(n) wherever it has n alternatives; the engine runs it once for every path through all choices.
#ifndef SEQ_HPP
#define SEQ_HPP

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <utility>

namespace seq
{

int choose(int n);                    // every alternative 0..n-1 is explored
[[noreturn]] void fail_str(const std::string& s);
void op(long n = 1);                  // count n executed operations (transitions)
void check(long n = 1);               // count n comparisons with the reference model
void outcome(const std::string& s);
bool replaying();                     // true when the history should be described (log)
void log_str(const std::string& s);
bool thorough();
void harness_register(const char* name, void (*fn)(), unsigned flags);
int rt_main(int argc, char** argv);
long live_blocks();                   // heap blocks currently allocated with operator new
unsigned long allocated_bytes();      // total bytes ever requested from operator new

// virtual time, shared by steady_clock and system_clock
int64_t now();
void advance(int64_t ns);
void set_now(int64_t ns);

enum flags : unsigned { F_NONE = 0, F_THOROUGH = 1, F_LEAK = 2 };

template<typename... A>
std::string fmt(const char* f, A... a)
{
    char buf[4096];
    snprintf(buf, sizeof buf, f, a...);
    return buf;
}
inline std::string fmt(const char* f) { return f; }

template<typename... A>
[[noreturn]] void fail(const char* f, A... a) { fail_str(fmt(f, a...)); }

template<typename... A>
void log(const char* f, A... a) { if (replaying()) log_str(fmt(f, a...)); }

template<typename T, size_t N>
const T& pick(const T (&v)[N]) { return v[choose((int)N)]; }

struct registrar { registrar(const char* n, void (*f)(), unsigned fl = 0) { harness_register(n, f, fl); } };

}

#define SEQ_CHECK(cond, ...) do { ::seq::check(); if (!(cond)) ::seq::fail(__VA_ARGS__); } while (0)

#define SEQ_HARNESS(name, ...) \
    static void seq_h_##name(); \
    static ::seq::registrar seq_r_##name(#name, &seq_h_##name, ##__VA_ARGS__); \
    static void seq_h_##name()

#endif
