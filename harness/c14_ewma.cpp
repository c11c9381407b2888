// @engine seq
// C14: moving averages follow their recurrence on every timeline of marks, queries and clock movements.
#include <seq.hpp>
#include <limits>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/time.hpp>
#include <cxxmetrics/ewma.hpp>
#include "ewma_model.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;

template<typename T> long double tolerance() { return std::is_same<T, double>::value ? 1e-9L : std::is_same<T, float>::value ? 1e-4L : 1e-9L; }

template<period::value W, period::value I, typename T>
struct subject
{
    ewma<W, I, T> e;
    ewma_model m;
    subject() : m((int64_t)W * 1000, (int64_t)I * 1000, seq::now()) { }
    void same(long double got, long double want, const char* what)
    {
        SEQ_CHECK(ewma_model::close(got, want, tolerance<T>()), "%s is %.12Lg, the recurrence gives %.12Lg", what, got, want);
        SEQ_CHECK(got >= 0, "%s is negative: %Lg", what, got);
    }
    void mark(double v) { seq::log("mark(%g)", v); e.mark(T(v)); m.mark(seq::now(), T(v)); seq::op(); }
    void query(const char* what = "rate() const")
    {
        const auto& c = e;
        same(c.rate(), m.value(seq::now()), what);
        same(static_cast<long double>(c.snapshot().value()), m.value(seq::now()), "snapshot() const");
    }
    void tick() { seq::log("rate()"); same(e.rate(), m.tick_and_read(seq::now()), "rate()"); seq::op(); }
    void snap() { seq::log("snapshot()"); same(static_cast<long double>(e.snapshot().value()), m.tick_and_read(seq::now()), "snapshot()"); seq::op(); }
    void go(int64_t ns) { seq::log("clock %+.3f intervals", (double)ns / ((int64_t)I * 1000)); seq::advance(ns); seq::op(); }
};

// all timelines of the given length; the state is compared with a const query after every step, or only
// at the end (so that queries that disturb the average are noticed)
template<period::value W, period::value I, typename T>
void timeline(int depth, bool back)
{
    const int64_t iv = (int64_t)I * 1000;
    subject<W, I, T> s;
    bool watch = seq::choose(2);
    for (int d = 0; d < depth; ++d)
    {
        switch (seq::choose(back ? 9 : 8))
        {
        case 0: s.mark(8); break;
        case 1: s.mark(1000); break;
        case 2: s.tick(); break;
        case 3: s.go(iv * 4 / 10); break;
        case 4: s.go(iv); break;
        case 5: s.go(iv * 27 / 10); break;
        case 6: s.go(iv * 45); break;
        case 7: s.mark(0); break;
        case 8: s.go(-iv * 6 / 10); break;
        }
        if (watch) s.query();
    }
    s.query("rate() const at the end");
    s.go(iv);
    s.snap();
    s.go(iv * 3 / 2);
    s.snap();
}

// idle times of any length after any of some histories
template<period::value W, period::value I, typename T>
void idle()
{
    const int64_t iv = (int64_t)I * 1000;
    subject<W, I, T> s;
    int seed = seq::choose(3);
    s.mark(1000);
    for (int i = 0; i < seed; ++i) { s.go(iv); s.mark(500); }
    static const double mult[] = { 0, 0.5, 1, 1.5, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 19, 20, 21, 25, 29, 30, 31, 40, 59, 60, 61, 99, 100, 101, 119, 120, 121, 122, 179, 180,
        181, 239, 240, 241, 300, 600, 601, 1000, 5000, 86400, 1e6, 2147483647., 2147483648., 2147483649., 4294967296., 4294967297., 9e9 };
    double k = seq::pick(mult);
    if (k * iv > 8e18 - 1e18) return;
    s.go((int64_t)(k * iv));
    s.query("rate() const after an idle time");
    int op = seq::choose(3);
    if (op == 0) s.tick();
    if (op == 1) s.mark(77);
    s.query();
    s.go(iv);
    s.tick();
    s.go(iv);
    s.tick();
}

// const queries anywhere never change the outcome of a run
template<period::value W, period::value I>
void readonly(int depth)
{
    const int64_t iv = (int64_t)I * 1000;
    subject<W, I, double> a, b;
    for (int d = 0; d < depth; ++d)
    {
        switch (seq::choose(4))
        {
        case 0: a.mark(5); b.e.mark(5.); break;
        case 1: a.go(iv * 6 / 10); break;
        case 2: a.go(iv * 21 / 10); break;
        case 3: a.tick(); b.e.rate(); break;
        }
        int reads = seq::choose(3);
        for (int i = 0; i < reads; ++i) { const auto& c = b.e; seq::log("read the twin"); (void)c.rate(); (void)c.snapshot(); }
    }
    SEQ_CHECK(a.e.rate() == b.e.rate(), "a run with read-only queries ends with another rate");
    a.go(iv); 
    SEQ_CHECK(a.e.rate() == b.e.rate(), "a run with read-only queries ends with another rate one interval later");
}
// sums beyond the range of the type: what's reported stays a number
template<typename T>
void overflow(int depth)
{
    ewma<10_sec, 1_sec, T> e;
    const T big = std::numeric_limits<T>::max();
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(6);
        seq::op();
        T got = 0;
        if (op == 0) { seq::log("mark(max)"); e.mark(big); }
        else if (op == 1) { seq::log("mark(max / 2)"); e.mark(big / 2); }
        else if (op == 2) { seq::log("mark(5)"); e.mark(T(5)); }
        else if (op == 3) { seq::log("+0.6 intervals"); seq::advance(6 * S / 10); }
        else if (op == 4) { seq::log("+2.1 intervals"); seq::advance(21 * S / 10); }
        else { got = e.rate(); seq::log("rate() = %g", (double)got); SEQ_CHECK(std::isfinite(got) && got >= 0, "rate() is %g", (double)got); }
        const auto& c = e;
        got = c.rate();
        SEQ_CHECK(std::isfinite(got) && got >= 0, "rate() const is %g", (double)got);
    }
}
// whole numbers: the fraction is cut off once per interval, nothing else is lost
template<typename T>
void integral(int depth)
{
    ewma<10_sec, 1_sec, T> e;
    ewma_model m(10 * S, S, seq::now());
    for (int d = 0; d < depth; ++d)
    {
        long double got = -1, want = 0;
        int op = seq::choose(5);
        seq::op();
        if (op == 0) { seq::log("mark(40)"); e.mark(T(40)); m.mark(seq::now(), 40); }
        else if (op == 1) { seq::log("mark(1000)"); e.mark(T(1000)); m.mark(seq::now(), 1000); }
        else if (op == 2) { seq::log("+1 interval"); seq::advance(S); }
        else if (op == 3) { seq::log("+5 intervals"); seq::advance(5 * S); }
        else { want = m.tick_and_read(seq::now()); got = (long double)e.rate(); seq::log("rate() = %Lg", got); SEQ_CHECK(got <= want + 1 && got >= want - depth - 1, "rate() is %Lg, the recurrence gives %Lg", got, want); }
        const auto& c = e;
        got = (long double)c.rate(); want = m.value(seq::now());
        SEQ_CHECK(got <= want + 1 && got >= want - depth - 1, "rate() const is %Lg, the recurrence gives %Lg", got, want);
    }
}
}

SEQ_HARNESS(c14_timeline_10_1) { timeline<10_sec, 1_sec, double>(seq::thorough() ? 6 : 5, false); }
SEQ_HARNESS(c14_timeline_back) { timeline<10_sec, 1_sec, double>(5, true); }
SEQ_HARNESS(c14_timeline_min) { timeline<1_min, 5_sec, double>(seq::thorough() ? 6 : 4, true); }
SEQ_HARNESS(c14_timeline_eq) { timeline<1_sec, 1_sec, double>(seq::thorough() ? 6 : 4, true); }
SEQ_HARNESS(c14_timeline_small) { timeline<1_sec, 5_sec, double>(seq::thorough() ? 6 : 4, true); }
SEQ_HARNESS(c14_timeline_float) { timeline<10_sec, 1_sec, float>(4, true); }
SEQ_HARNESS(c14_idle_10_1) { idle<10_sec, 1_sec, double>(); }
SEQ_HARNESS(c14_idle_1h) { idle<1_hour, 1_sec, double>(); }
SEQ_HARNESS(c14_idle_min) { idle<1_min, 5_sec, double>(); }
SEQ_HARNESS(c14_idle_eq) { idle<1_sec, 1_sec, double>(); }
SEQ_HARNESS(c14_idle_micro) { idle<10_micro, 1_micro, double>(); }
SEQ_HARNESS(c14_idle_float) { idle<10_sec, 1_sec, float>(); }
SEQ_HARNESS(c14_readonly) { readonly<10_sec, 1_sec>(seq::thorough() ? 6 : 5); }
SEQ_HARNESS(c14_readonly_min) { readonly<1_min, 5_sec>(4); }
SEQ_HARNESS(c14_overflow) { overflow<double>(seq::thorough() ? 7 : 6); }
SEQ_HARNESS(c14_overflow_float) { overflow<float>(seq::thorough() ? 7 : 6); }
SEQ_HARNESS(c14_integral_i64) { integral<int64_t>(seq::thorough() ? 8 : 6); }
SEQ_HARNESS(c14_integral_u64) { integral<uint64_t>(seq::thorough() ? 8 : 6); }
SEQ_HARNESS(c14_integral_u32) { integral<uint32_t>(6); }
