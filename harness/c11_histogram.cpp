// C11: the count of a histogram under concurrent recording, all schedules.
#include <mc.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include "snap.hpp"
using namespace cxxmetrics;

namespace
{
template<typename R>
struct bench
{
    histogram<int64_t, R> h;
    unsigned begun = 0, finished = 0;
    int next = 0;

    void update()
    {
        mc::mc_call(1);
        int64_t v;
        { mc::quiet q; ++begun; v = ++next; }
        h.update(v);
        mc::mc_ret(1);
        mc::quiet q;
        ++finished;
    }
    void snapshot(bool with_count)
    {
        mc::mc_call(2);
        unsigned lo, hi;
        { mc::quiet q; lo = finished; }
        auto s = h.snapshot();
        mc::mc_ret(2);
        {
            mc::quiet q;
            hi = begun;
            MC_CHECK(s.count() >= lo && s.count() <= hi, "a snapshot counts %llu values; %u updates were finished before it and %u begun", (unsigned long long)s.count(), lo, hi);
            MC_CHECK(s.count() >= s.size(), "a snapshot counts %llu values and contains %zu", (unsigned long long)s.count(), s.size());
            mc::outcome(std::to_string(s.count()) + "/" + std::to_string(s.size()));
        }
        if (!with_count) return;
        mc::mc_call(3);
        { mc::quiet q; lo = finished; }
        auto c = h.count();
        mc::mc_ret(3);
        mc::quiet q;
        MC_CHECK(c >= lo && c <= begun && c >= s.count(), "count() returned %llu after a snapshot counted %llu; %u updates finished, %u begun", (unsigned long long)c, (unsigned long long)s.count(), lo, begun);
    }
    void rest(size_t cap)
    {
        auto s = h.snapshot();
        mc::quiet q;
        MC_CHECK(h.count() == begun && s.count() == begun, "at rest after %u updates: count() %llu, snapshot %llu", begun, (unsigned long long)h.count(), (unsigned long long)s.count());
        MC_CHECK(s.size() == (begun < cap ? begun : cap) || begun > cap, "at rest after %u updates: %zu samples", begun, s.size());
    }
};

template<typename R>
void writers_reader(size_t cap, int pre, int a, int b, int n, bool with_count)
{
    bench<R> t;
    for (int i = 0; i < pre; ++i) t.update();
    auto w1 = [&] { for (int i = 0; i < a; ++i) t.update(); };
    auto w2 = [&] { for (int i = 0; i < b; ++i) t.update(); };
    auto rd = [&] { for (int i = 0; i < n; ++i) t.snapshot(with_count); };
    if (!n) mc::parallel(w1, w2);
    else if (!b) mc::parallel(w1, rd);
    else mc::parallel(w1, w2, rd);
    t.rest(cap);
}

template<size_t N> using simple = simple_reservoir<int64_t, N>;
template<size_t N> using uniform = uniform_reservoir<int64_t, N>;
template<size_t N> using sliding = sliding_window_reservoir<int64_t, N>;
}

#define FAMILY(kind) \
    MC_HARNESS(c11_##kind##_2w, mc::F_LEAK) { writers_reader<kind<2>>(2, mc::choose(4), 2, 1, 0, false); } \
    MC_HARNESS(c11_##kind##_1w1r, mc::F_LEAK) { writers_reader<kind<2>>(2, mc::choose(4), 1, 0, 1, true); } \
    MC_HARNESS(c11_##kind##_1w1r2, mc::F_LEAK) { writers_reader<kind<3>>(3, mc::choose(2), 2, 0, 1, false); } \
    MC_HARNESS(c11_##kind##_2w1r, mc::F_LEAK) { writers_reader<kind<2>>(2, mc::choose(3), 1, 1, 1, false); } \
    MC_HARNESS(c11_##kind##_2w1r_count, mc::F_LEAK | mc::F_THOROUGH) { writers_reader<kind<2>>(2, mc::choose(3), 1, 1, 1, true); } \
    MC_HARNESS(c11_##kind##_1w2s, mc::F_LEAK | mc::F_THOROUGH) { writers_reader<kind<2>>(2, mc::choose(3), 2, 0, 2, false); }

FAMILY(simple)
FAMILY(uniform)
FAMILY(sliding)

MC_MAIN()
