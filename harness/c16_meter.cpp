// @engine seq
// C16: a meter reports the lifetime mean and one rate per distinct window, for all timelines of marks, queries and clock steps.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/metrics_registry.hpp>
#include "ewma_model.hpp"
#include <map>
#include <memory>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
using steady = std::chrono::steady_clock;

// all distinct windows among W
template<period::value I, period::value... W>
struct subject
{
    using M = meter<I, W...>;
    const int64_t iv = (int64_t)I * 1000;
    M m;
    std::map<int64_t, ewma_model> model;
    long double total = 0;
    int64_t start = -1;

    subject()
    {
        const int64_t w[] = { 0, (int64_t)W * 1000 ... };
        for (auto x : w) if (x) model.emplace(x, ewma_model(x, iv, seq::now()));
    }
    void same(long double got, long double want, const char* what, int64_t w = 0)
    {
        SEQ_CHECK(ewma_model::close(got, want), "%s%s is %.12Lg, expected %.12Lg", what, w ? seq::fmt(" of the %g s window", w / 1e9).c_str() : "", got, want);
    }
    long double mean() const
    {
        if (start < 0 || seq::now() == start) return total;
        return total / ((long double)(seq::now() - start) / iv);
    }
    void mark(int64_t by)
    {
        seq::log("mark(%lld)", (long long)by);
        if (by == 1) m.mark();
        else m.mark(by);
        if (start < 0) start = seq::now();
        total += by;
        for (auto& x : model) x.second.mark(seq::now(), by);
        seq::op();
    }
    void compare(const meter_snapshot& s, bool ticking)
    {
        same(static_cast<long double>(s.value()), mean(), "the mean in the snapshot");
        std::map<int64_t, long double> seen;
        for (auto& r : s)
        {
            int64_t w = std::chrono::duration_cast<std::chrono::nanoseconds>(r.first).count();
            SEQ_CHECK(model.count(w), "a rate for a window of %lld ns, which nobody requested", (long long)w);
            SEQ_CHECK(!seen.count(w), "two rates for the window of %lld ns", (long long)w);
            seen[w] = static_cast<long double>(r.second);
        }
        SEQ_CHECK(seen.size() == model.size(), "%zu rates for %zu windows", seen.size(), model.size());
        for (auto& x : model) same(seen[x.first], ticking ? x.second.tick_and_read(seq::now()) : x.second.value(seq::now()), "the rate in the snapshot", x.first);
    }
    template<period::value V> void one_rate(bool ticking)
    {
        auto& x = model.at((int64_t)V * 1000);
        const M& c = m;
        meter_rate r = ticking ? m.template rate<V>() : c.template rate<V>();
        same(r.rate, ticking ? x.tick_and_read(seq::now()) : x.value(seq::now()), ticking ? "rate()" : "rate() const", (int64_t)V * 1000);
        SEQ_CHECK(r.period == std::chrono::nanoseconds((int64_t)V * 1000), "a rate names another window");
    }
    void query()
    {
        const M& c = m;
        same(c.mean(), mean(), "mean()");
        compare(c.snapshot(), false);
        int d[] = { 0, (one_rate<W>(false), 0)... };
        (void)d;
    }
    void tick_rates() { seq::log("rates"); int d[] = { 0, (one_rate<W>(true), 0)... }; (void)d; seq::op(); }
    template<period::value V, period::value...> void tick_first() { seq::log("one rate"); one_rate<V>(true); seq::op(); }
    void snap() { seq::log("snapshot"); compare(m.snapshot(), true); seq::op(); }
    void go(int64_t ns) { seq::log("clock +%.3f intervals", (double)ns / iv); seq::advance(ns); seq::op(); }

    void step(bool all = true)
    {
        switch (seq::choose(all ? 9 : 6))
        {
            case 0: mark(1); break;
            case 1: mark(70); break;
            case 2: snap(); break;
            case 3: go(iv * 4 / 10); break;
            case 4: go(iv); break;
            case 5: go(iv * 27 / 10); break;
            case 6: tick_first<W...>(); break;
            case 7: go(iv * 1000); break;
            default: mark(0); break;
        }
    }
};

template<period::value I, period::value... W>
void timeline(int depth, bool all = true)
{
    seq::set_now(7 * S + 12345);
    subject<I, W...> s;
    bool watch = seq::choose(2);
    for (int i = 0; i < depth; ++i) { s.step(all); if (watch) s.query(); }
    s.query();
    s.go(s.iv);
    s.snap();
    s.query();
}
}

SEQ_HARNESS(c16_timeline) { timeline<1_sec, 10_sec, 1_min>(seq::thorough() ? 6 : 5); }
SEQ_HARNESS(c16_fine) { timeline<10_msec, 100_msec, 30_msec, 1_sec>(4); }
SEQ_HARNESS(c16_one_window) { timeline<1_min, 1_min>(4); }
SEQ_HARNESS(c16_no_window)
{
    seq::set_now(7 * S);
    meter<1_sec> m;
    long double total = 0;
    int64_t start = -1;
    for (int i = 0; i < 5; ++i)
    {
        int c = seq::choose(4);
        if (c < 2) { m.mark(1 + 5 * c); total += 1 + 5 * c; if (start < 0) start = seq::now(); }
        else seq::advance(c == 2 ? S / 3 : 5 * S);
        long double want = start < 0 || start == seq::now() ? total : total * S / (seq::now() - start);
        SEQ_CHECK(ewma_model::close(m.mean(), want), "mean is %g, expected %Lg", m.mean(), want);
        auto s = m.snapshot();
        SEQ_CHECK(s.begin() == s.end(), "a rate without windows");
        SEQ_CHECK(ewma_model::close(static_cast<long double>(s.value()), want), "mean in the snapshot");
        seq::op();
    }
}
SEQ_HARNESS(c16_long, seq::F_THOROUGH) { timeline<1_sec, 5_sec, 15_min>(8, false); }

// many marks: large totals and long lives
SEQ_HARNESS(c16_totals)
{
    seq::set_now(7 * S);
    subject<1_sec, 1_min, 1_hour> s;
    int n = seq::choose(4);
    static const int64_t by[] = { 1, 1000000007, 1ll << 40, -5 };
    static const int64_t wait[] = { S, 3600 * S, 1000 * 3600 * S, 1 };
    s.mark(seq::pick(by));
    for (int i = 0; i < n; ++i) { s.go(seq::pick(wait)); s.mark(seq::pick(by)); }
    s.query();
    s.go(seq::pick(wait));
    s.query();
}

// windows listed in another order or repeatedly make the same meter
namespace
{
template<typename A, typename B>
void alike(int depth)
{
    seq::set_now(7 * S);
    A a; B b;
    auto same = [&] {
        auto s = a.snapshot(), t = b.snapshot();
        std::map<int64_t, long double> x, y;
        for (auto& r : s) x[r.first.count()] += static_cast<long double>(r.second);
        for (auto& r : t) y[r.first.count()] += static_cast<long double>(r.second);
        SEQ_CHECK(x == y && a.mean() == b.mean(), "the meters differ");
        seq::op();
    };
    for (int i = 0; i < depth; ++i)
    {
        int c = seq::choose(5);
        if (c < 2) { a.mark(c ? 40 : 1); b.mark(c ? 40 : 1); }
        else if (c == 2) same();
        else seq::advance(c == 3 ? S / 2 : 3 * S);
    }
    same();
}
}
SEQ_HARNESS(c16_orders) { alike<meter<1_sec, 5_sec, 1_min, 5_min>, meter<1_sec, 5_min, 5_sec, 1_min>>(5); }
SEQ_HARNESS(c16_repeats) { alike<meter<1_sec, 5_sec, 1_min>, meter<1_sec, 1_min, 5_sec, 5_sec, 1_min, 60_sec>>(5); }

// lists of windows: every permutation of three, through snapshots
namespace
{
template<period::value... W>
void windows()
{
    subject<1_sec, W...> s;
    s.mark(5);
    s.query();
    s.go(3 * S / 2);
    s.mark(2);
    s.tick_rates();
    s.go(S);
    s.snap();
    s.query();
}
}
SEQ_HARNESS(c16_window_lists)
{
    seq::set_now(7 * S);
    switch (seq::choose(12))
    {
        case 0: windows<1_sec, 2_sec, 3_sec>(); break;
        case 1: windows<1_sec, 3_sec, 2_sec>(); break;
        case 2: windows<2_sec, 1_sec, 3_sec>(); break;
        case 3: windows<2_sec, 3_sec, 1_sec>(); break;
        case 4: windows<3_sec, 1_sec, 2_sec>(); break;
        case 5: windows<3_sec, 2_sec, 1_sec>(); break;
        case 6: windows<3_sec, 3_sec, 3_sec>(); break;
        case 7: windows<2_sec, 2_sec, 1_sec, 1_sec>(); break;
        case 8: windows<1_sec, 2_sec, 1_sec, 2_sec>(); break;
        case 9: windows<9_sec, 7_sec, 8_sec, 1_sec, 5_sec, 3_sec>(); break;
        case 10: windows<1_hour, 1_micro, 1_min, 1_msec, 60_min>(); break;
        default: windows<500_msec, 24_hour, 1500_msec>(); break;
    }
}
