// C22: recording into a metric needs no lock: one thread may stop for good at any point of any operation on the metric, the other
// one completes its recordings in a bounded number of own steps in every schedule.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <memory>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
constexpr long BUDGET = 300;

struct k_counter
{
    counter<int64_t> m;
    void record() { ++m; }
    void look(int k) { if (k) m.snapshot(); else counter<int64_t> c(m); }
};
struct k_counter32
{
    counter<uint32_t> m;
    void record() { m.incr(7); }
    void look(int k) { if (k) m = 5; else m.value(); }
};
template<typename T> struct k_gauge
{
    gauge<T> m;
    void record() { m.set(T(3)); }
    void look(int k) { if (k) m.snapshot(); else { gauge<T> c(m); m = c; } }
};
template<typename T> struct k_ewma
{
    ewma<10_sec, 1_sec, T> m;
    void record() { m.mark(4); }
    void look(int k) { const auto& c = m; if (k == 0) m.rate(); else if (k == 1) c.rate(); else if (k == 2) m.snapshot(); else ewma<10_sec, 1_sec, T> d(m); }
    static constexpr int looks = 4;
};
struct k_meter
{
    meter<1_sec, 5_sec> m;
    void record() { m.mark(2); }
    void look(int k) { const auto& c = m; if (k == 0) m.rate<5_sec>(); else if (k == 1) m.mean(); else if (k == 2) c.snapshot(); else m.snapshot(); }
};
template<size_t N> struct k_simple
{
    simple_reservoir<int, N> m;
    void record() { m.update(3); }
    void look(int k) { if (k) m.snapshot(); else simple_reservoir<int, N> c(m); }
};
template<size_t N> struct k_uniform
{
    uniform_reservoir<int64_t, N> m;
    void record() { m.update(3); }
    void look(int k) { if (k) m.snapshot(); else uniform_reservoir<int64_t, N> c(m); }
};
template<size_t N> struct k_window
{
    sliding_window_reservoir<int, N> m;
    void record() { m.update(3); }
    void look(int k) { if (k) m.snapshot(); else sliding_window_reservoir<int, N> c(m); }
};
template<typename R> struct k_histogram
{
    histogram<int, R> m;
    void record() { m.update(3); }
    void look(int k) { if (k) m.snapshot(); else m.count(); }
};
struct k_timer
{
    timer<1_sec, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 2>, 5_sec> m;
    void record() { m.update(std::chrono::nanoseconds(5)); }
    void look(int k) { if (k) m.count(); else m.snapshot(); }
};

template<typename K>
void recording(int pre, int looks, int records, bool time)
{
    K k;
    int n = pre ? mc::choose(pre + 1) : 0;
    for (int i = 0; i < n; ++i) k.record();
    if (time) mc::advance(mc::choose(2) ? S : S / 2);
    int what = mc::choose(looks + 1);
    // the first thread records or looks, and may stop anywhere; the other one records
    mc::parallel_f({ mc::T_CRASH, mc::T_NONE }, [&] { if (what == 0) { k.record(); if (records > 1) k.record(); } else k.look(what - 1); }, [&]
    {
        for (int i = 0; i < records; ++i)
        {
            mc::mc_budget(BUDGET);
            k.record();
            mc::mc_budget(0);
        }
    });
}
template<typename K>
void recorders(int pre)
{
    // two that record and may stop, one that goes on
    K k;
    for (int i = 0; i < pre; ++i) k.record();
    mc::parallel_f({ mc::T_CRASH, mc::T_CRASH, mc::T_NONE }, [&] { k.record(); }, [&] { k.record(); }, [&] { mc::mc_budget(BUDGET); k.record(); mc::mc_budget(0); });
}
}

#define NR mc::F_NO_RACE
MC_HARNESS(c22_lf_counter, NR, 0, 0) { recording<k_counter>(0, 2, 2, false); }
MC_HARNESS(c22_lf_counter32, NR, 0, 0) { recording<k_counter32>(0, 2, 2, false); }
MC_HARNESS(c22_lf_gauge, NR, 0, 0) { recording<k_gauge<int>>(0, 2, 2, false); }
MC_HARNESS(c22_lf_gauge_double, NR, 0, 0) { recording<k_gauge<double>>(0, 2, 2, false); }
MC_HARNESS(c22_lf_ewma, NR, 0, 0) { recording<k_ewma<double>>(1, 4, 2, true); }
MC_HARNESS(c22_lf_ewma_int, NR, 0, 0) { recording<k_ewma<int>>(1, 4, 1, true); }
MC_HARNESS(c22_lf_meter, NR, 0, 0) { recording<k_meter>(1, 4, 1, true); }
MC_HARNESS(c22_lf_simple_2, NR, 0, 0) { recording<k_simple<2>>(3, 2, 2, false); }
MC_HARNESS(c22_lf_simple_3, NR, 0, 0) { recording<k_simple<3>>(4, 2, 1, false); }
MC_HARNESS(c22_lf_uniform_2, NR, 0, 0) { recording<k_uniform<2>>(3, 2, 2, false); }
MC_HARNESS(c22_lf_window_2, NR, 0, 0) { recording<k_window<2>>(3, 2, 2, true); }
MC_HARNESS(c22_lf_histogram, NR, 0, 0) { recording<k_histogram<uniform_reservoir<int, 2>>>(2, 2, 1, false); }
MC_HARNESS(c22_lf_histogram_simple, NR, 0, 0) { recording<k_histogram<simple_reservoir<int, 2>>>(2, 2, 1, false); }
MC_HARNESS(c22_lf_timer, NR, 0, 0) { recording<k_timer>(1, 2, 1, true); }
MC_HARNESS(c22_lf3_simple, NR, 0, 0) { recorders<k_simple<2>>(mc::choose(3)); }
MC_HARNESS(c22_lf3_uniform, NR, 0, 0) { recorders<k_uniform<2>>(mc::choose(3)); }
MC_HARNESS(c22_lf3_ewma, NR, 0, 0) { int p = mc::choose(2); recorders<k_ewma<double>>(p); }
MC_HARNESS(c22_lf3_counter, NR, 0, 0) { recorders<k_counter>(0); }
MC_MAIN()
