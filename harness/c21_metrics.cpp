// C21: no data races between any two operations on the same metric, judged by happens-before under the declared memory orders in
// every schedule. (The engine reports a race of two plain accesses, or a plain and an atomic one, wherever it happens.)
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <memory>
#include <functional>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;

// the operations of each kind of metric; n of them
template<typename T> struct k_counter
{
    counter<T> m;
    static constexpr int n = 7;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: ++m; break;
            case 1: m.incr(3); break;
            case 2: m = T(9); break;
            case 3: c.value(); break;
            case 4: c.snapshot(); break;
            case 5: { counter<T> d(c); d = c; break; }
            case 6: m++; break;
        }
    }
};
template<typename T, gauges::gauge_aggregation_type A> struct k_gauge
{
    gauge<T, A> m;
    static constexpr int n = 6;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: m.set(T(3)); break;
            case 1: m = T(4); break;
            case 2: c.get(); break;
            case 3: m.get(); break;
            case 4: c.snapshot(); break;
            case 5: { gauge<T, A> d(c); d = c; break; }
        }
    }
};
// what these refer to is atomic, as the user has to see to
struct k_function
{
    std::atomic<int> v { 3 };
    gauge<std::function<int()>> m { std::function<int()>([this] { return v.load(); }) };
    static constexpr int n = 5;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: v = 4; break;
            case 1: c.get(); break;
            case 2: m.get(); break;
            case 3: c.snapshot(); break;
            case 4: { gauge<std::function<int()>> d(c); d.get(); break; }
        }
    }
};
template<typename T> struct k_ewma
{
    using E = ewma<10_sec, 1_sec, T>;
    E m;
    static constexpr int n = 6;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: m.mark(4); break;
            case 1: m.rate(); break;
            case 2: c.rate(); break;
            case 3: m.snapshot(); break;
            case 4: c.snapshot(); break;
            case 5: { E d(c); d = c; break; }
        }
    }
};
struct k_meter
{
    using M = meter<1_sec, 5_sec>;
    M m;
    static constexpr int n = 7;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: m.mark(4); break;
            case 1: m.rate<5_sec>(); break;
            case 2: c.rate<5_sec>(); break;
            case 3: m.snapshot(); break;
            case 4: c.snapshot(); break;
            case 5: c.mean(); break;
            case 6: { M d(c); d = c; break; }
        }
    }
};
template<typename R> struct k_reservoir
{
    R m;
    static constexpr int n = 4;
    void run(int op)
    {
        const auto& c = m;
        using V = typename R::value_type;
        switch (op)
        {
            case 0: m.update(V(3)); break;
            case 1: m.update(V(4)); m.update(V(5)); break;
            case 2: c.snapshot(); break;
            case 3: { R d(c); d = c; break; }
        }
    }
};
template<typename R> struct k_histogram
{
    histogram<int, R> m;
    static constexpr int n = 4;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: m.update(3); break;
            case 1: c.snapshot(); break;
            case 2: c.count(); break;
            case 3: { histogram<int, R> d(c); break; }
        }
    }
};
struct k_timer
{
    using T = timer<1_sec, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 2>, 5_sec>;
    T m;
    static constexpr int n = 8;
    void run(int op)
    {
        const auto& c = m;
        switch (op)
        {
            case 0: m.update(std::chrono::nanoseconds(5)); break;
            case 1: { auto s = scoped_timer(m); s.reset(); mc::advance(1); break; }
            case 2: m.time([] { mc::advance(1); return 1; }); break;
            case 3: c.count(); break;
            case 4: c.mean(); break;
            case 5: c.rate<5_sec>(); break;
            case 6: c.snapshot(); break;
            case 7: m.snapshot(); break;
        }
    }
};

template<typename K>
void pairs(int pre, bool time)
{
    K k;
    for (int i = pre ? mc::choose(pre + 1) : 0; i > 0; --i) k.run(0);
    if (time && mc::choose(2)) mc::advance(S);
    int x = mc::choose(K::n), y = x + mc::choose(K::n - x);
    mc::parallel([&] { k.run(x); }, [&] { k.run(y); });
}
template<typename K>
void sequences(int pre, bool time)
{
    K k;
    for (int i = 0; i < pre; ++i) k.run(0);
    if (time) mc::advance(S);
    int a = mc::choose(K::n), b = mc::choose(K::n), x = mc::choose(K::n), y = mc::choose(K::n);
    mc::parallel([&] { k.run(a); k.run(b); }, [&] { k.run(x); k.run(y); });
}
template<typename K>
void threes(int pre, bool time)
{
    K k;
    for (int i = 0; i < pre; ++i) k.run(0);
    if (time) mc::advance(S);
    int a = mc::choose(K::n), b = a + mc::choose(K::n - a), x = b + mc::choose(K::n - b);
    mc::parallel([&] { k.run(a); }, [&] { k.run(b); }, [&] { k.run(x); });
}
// a metric that is handed over to another thread by a pointer that's published with release: its construction is ordered before its use
template<typename K>
void handover()
{
    std::atomic<K*> p(nullptr);
    std::unique_ptr<K> own;
    int x = mc::choose(K::n);
    mc::parallel([&] { own.reset(new K()); own->run(0); p.store(own.get(), std::memory_order_release); own->run(0); }, [&] { if (auto k = p.load(std::memory_order_acquire)) k->run(x); });
}
using sum = std::integral_constant<gauges::gauge_aggregation_type, gauges::aggregation_sum>;
}

#define ALL(name, K, pre, time, tflags, sflags) \
    MC_HARNESS(c21_pairs_##name, 0, 0, 0) { pairs<K>(pre, time); } \
    MC_HARNESS(c21_handover_##name, 0, 0, 0) { handover<K>(); } \
    MC_HARNESS(c21_threes_##name, tflags, 2, 0) { threes<K>(pre, time); } \
    MC_HARNESS(c21_sequences_##name, sflags, 2, 0) { sequences<K>(pre, time); }
using k_gauge_int = k_gauge<int, gauges::aggregation_average>;
using k_gauge_dbl = k_gauge<double, gauges::aggregation_sum>;
using k_simple2 = k_reservoir<simple_reservoir<int, 2>>;
using k_uniform2 = k_reservoir<uniform_reservoir<int64_t, 2>>;
using k_window2 = k_reservoir<sliding_window_reservoir<int, 2>>;
using k_simple3 = k_reservoir<simple_reservoir<double, 3>>;
using k_hist_simple = k_histogram<simple_reservoir<int, 2>>;
using k_hist_uniform = k_histogram<uniform_reservoir<int, 2>>;
ALL(counter, k_counter<int64_t>, 0, false, 0, 0)
ALL(counter8, k_counter<uint8_t>, 0, false, 0, 0)
ALL(gauge_int, k_gauge_int, 0, false, 0, 0)
ALL(gauge_double, k_gauge_dbl, 0, false, 0, 0)
ALL(gauge_function, k_function, 0, false, 0, 0)
ALL(ewma, k_ewma<double>, 1, true, mc::F_PB, mc::F_PB)
ALL(ewma_int, k_ewma<int>, 1, true, mc::F_PB | mc::F_THOROUGH, mc::F_PB | mc::F_THOROUGH)
ALL(meter, k_meter, 1, true, mc::F_PB, mc::F_PB)
ALL(simple, k_simple2, 2, false, mc::F_PB, mc::F_PB)
ALL(simple3, k_simple3, 3, false, mc::F_PB | mc::F_THOROUGH, mc::F_PB | mc::F_THOROUGH)
ALL(uniform, k_uniform2, 2, false, mc::F_PB, mc::F_PB)
ALL(window, k_window2, 2, true, mc::F_PB, mc::F_PB)
ALL(histogram, k_hist_uniform, 1, false, mc::F_PB, mc::F_PB)
ALL(histogram_simple, k_hist_simple, 1, false, mc::F_PB, mc::F_PB | mc::F_THOROUGH)
ALL(timer, k_timer, 1, true, mc::F_PB, mc::F_PB | mc::F_THOROUGH)
// without a bound on preemptions
#define UNBOUNDED(name, K, pre, time) \
    MC_HARNESS(c21_all_threes_##name, mc::F_THOROUGH, 0, 0) { threes<K>(pre, time); } \
    MC_HARNESS(c21_all_sequences_##name, mc::F_THOROUGH, 0, 0) { sequences<K>(pre, time); }
UNBOUNDED(simple, k_simple2, 2, false)
UNBOUNDED(uniform, k_uniform2, 2, false)
UNBOUNDED(window, k_window2, 2, true)
UNBOUNDED(histogram, k_hist_uniform, 1, false)
UNBOUNDED(histogram_simple, k_hist_simple, 1, false)
UNBOUNDED(ewma, k_ewma<double>, 1, true)
#define DEEPER(name, K, pre, time) \
    MC_HARNESS(c21_deep_threes_##name, mc::F_PB | mc::F_THOROUGH, 3, 0) { threes<K>(pre, time); } \
    MC_HARNESS(c21_deep_sequences_##name, mc::F_PB | mc::F_THOROUGH, 3, 0) { sequences<K>(pre, time); }
DEEPER(ewma, k_ewma<double>, 1, true)
DEEPER(meter, k_meter, 1, true)
MC_MAIN()
