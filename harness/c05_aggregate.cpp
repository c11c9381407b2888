// @engine seq
// C05: the aggregate of a registered metric combines all its tag sets, whatever their number, values and order.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include "snap.hpp"
#include <map>
#include <vector>
#include <algorithm>
using namespace cxxmetrics;

namespace
{
using steady = std::chrono::steady_clock;
using ld = long double;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10)), M1 = period::value(time::minutes(1));
using hres = simple_reservoir<int64_t, 3>;
using tres = simple_reservoir<steady::duration, 3>;
const int64_t S = 1000000000ll;

const tag_collection& tags(int i)
{
    static const tag_collection t[] = { {}, { { "k", 1 } }, { { "k", 2 }, { "h", "x" } }, { { "h", "x" } }, { { "k", 7 } } };
    return t[i];
}
bool close(ld a, ld b) { return std::fabs(a - b) <= 1e-12L * std::max<ld>(1, std::max(std::fabs(a), std::fabs(b))); }
ld num(const metric_value& v) { return static_cast<ld>(v); }

// what a visitor of any snapshot gets to see
struct shown
{
    std::string kind;
    ld value = 0;
    std::map<int64_t, ld> rates;
    std::vector<long long> samples;
    uint64_t count = 0;
    int calls = 0;
    void meter(const meter_snapshot& s) { value = num(s.value()); for (auto& r : s) { SEQ_CHECK(!rates.count(r.first.count()), "a window appears twice"); rates[r.first.count()] = num(r.second); } }
    void hist(const histogram_snapshot& s) { count = s.count(); samples = snap::ints(s); }
};
struct shower
{
    shown& s;
    void operator()(const cumulative_value_snapshot& x) const { s.calls++; s.kind = "sum"; s.value = num(x.value()); }
    void operator()(const average_value_snapshot& x) const { s.calls++; s.kind = "average"; s.value = num(x.value()); }
    void operator()(const meter_snapshot& x) const { s.calls++; s.kind = "meter"; s.meter(x); }
    void operator()(const histogram_snapshot& x) const { s.calls++; s.kind = "histogram"; s.hist(x); }
    void operator()(const timer_snapshot& x) const { s.calls++; s.kind = "timer"; s.hist(x); s.meter(x.rate()); }
};

std::string text(const shown& s)
{
    std::string r = seq::fmt("%s value %Lg count %llu samples %s", s.kind.c_str(), s.value, (unsigned long long)s.count, snap::str(s.samples).c_str());
    for (auto& w : s.rates) r += seq::fmt(" rate[%lld]=%Lg", (long long)w.first, w.second);
    return r;
}
bool same(const shown& a, const shown& b)
{
    if (a.kind != b.kind || a.count != b.count || a.samples != b.samples || !close(a.value, b.value) || a.rates.size() != b.rates.size()) return false;
    for (auto& w : a.rates) { auto f = b.rates.find(w.first); if (f == b.rates.end() || !close(f->second, w.second)) return false; }
    return true;
}

// the combination of what the metrics themselves show
shown combine(const std::vector<shown>& v)
{
    shown r = v[0];
    for (std::size_t i = 1; i < v.size(); ++i)
    {
        r.value += v[i].value;
        for (auto& w : r.rates) w.second += v[i].rates.at(w.first);
        r.count += v[i].count;
        r.samples.insert(r.samples.end(), v[i].samples.begin(), v[i].samples.end());
    }
    if (r.kind != "sum")
    {
        r.value /= v.size();
        for (auto& w : r.rates) w.second /= v.size();
    }
    std::sort(r.samples.begin(), r.samples.end());
    return r;
}

struct reg {
static basic_registered_metric* the_metric(metrics_registry<>& r)
{
    basic_registered_metric* p = nullptr;
    auto h = [&](const metric_path& n, basic_registered_metric& m) { if (n == metric_path("m")) p = &m; };
    r.visit_registered_metrics(h);
    return p;
}

// aggregates metric m of the registry, knowing the metrics m.all
template<typename M>
static shown verify(metrics_registry<>& r, const std::vector<std::shared_ptr<M>>& all)
{
    std::vector<shown> each(all.size()), after(all.size());
    for (std::size_t i = 0; i < all.size(); ++i) { const M& c = *all[i]; shower { each[i] }(c.snapshot()); }
    shown want = combine(each), got;
    auto* m = the_metric(r);
    SEQ_CHECK(m, "metric is not registered");
    for (int round = 0; round < 2; ++round)
    {
        got = shown();
        m->aggregate(shower { got });
        SEQ_CHECK(got.calls == 1, "the handler was called %d times", got.calls);
        SEQ_CHECK(same(got, want), "aggregate %d is [%s], expected [%s]", round, text(got).c_str(), text(want).c_str());
    }
    for (std::size_t i = 0; i < all.size(); ++i)
    {
        const M& c = *all[i];
        shower { after[i] }(c.snapshot());
        SEQ_CHECK(same(after[i], each[i]), "aggregating changed metric %zu from [%s] to [%s]", i, text(each[i]).c_str(), text(after[i]).c_str());
    }
    seq::op();
    return want;
}

};

// registration order of n tag sets
std::vector<int> order(int n)
{
    std::vector<int> left, r;
    for (int i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty()) { int k = seq::choose((int)left.size()); r.push_back(left[k]); left.erase(left.begin() + k); }
    return r;
}

template<typename T, typename Get>
void values(int maxn, std::initializer_list<T> vals, const Get& get, T sign)
{
    metrics_registry<> q;
    using M = typename std::decay<decltype(*get(q, 0, T()))>::type;
    std::vector<std::shared_ptr<M>> all;
    ld sum = 0;
    int n = 1 + seq::choose(maxn);
    for (int t : order(n))
    {
        T v = *(vals.begin() + seq::choose((int)vals.size()));
        all.push_back(get(q, t, v));
        sum += static_cast<ld>(v);
    }
    shown w = reg::verify(q, all);
    SEQ_CHECK(close(w.value, sign ? sum : sum / n), "metrics of sum %Lg aggregate to %Lg", sum, w.value);
}
}

SEQ_HARNESS(c05_counters)
{
    values<int64_t>(4, { -2, 0, 1, (1ll << 53) + 1 }, [](auto& r, int t, int64_t v) { auto m = r.template counter<int64_t>("m", int64_t(v), tags(t)); return m; }, 1);
}
SEQ_HARNESS(c05_unsigned_counters)
{
    values<uint64_t>(4, { 0, 3, 1ull << 61, (1ull << 53) + 1 }, [](auto& r, int t, uint64_t v) { auto m = r.template counter<uint64_t>("m", 0, tags(t)); *m += v; return m; }, 1);
}
SEQ_HARNESS(c05_small_counters)
{
    values<int16_t>(4, { -300, 0, 7, 8000 }, [](auto& r, int t, int16_t v) { auto m = r.template counter<int16_t>("m", int16_t(0), tags(t)); *m += v; return m; }, 1);
}
SEQ_HARNESS(c05_sum_gauges)
{
    values<double>(4, { -2.5, 0, 1.25, 1e6 }, [](auto& r, int t, double v) { auto m = r.template gauge<double, gauges::aggregation_sum>("m", 0., tags(t)); m->set(v); return m; }, 1);
}
SEQ_HARNESS(c05_average_gauges)
{
    values<int64_t>(4, { -2, 0, 1, 1000000 }, [](auto& r, int t, int64_t v) { auto m = r.template gauge<int64_t>("m", 0, tags(t)); m->set(v); return m; }, 0);
}
SEQ_HARNESS(c05_average_gauges_five, seq::F_THOROUGH)
{
    values<double>(5, { -2, 0.5, 13 }, [](auto& r, int t, double v) { auto m = r.template gauge<double>("m", 0., tags(t)); m->set(v); return m; }, 0);
}
SEQ_HARNESS(c05_function_gauges)
{
    values<int64_t>(4, { -2, 0, 9 }, [](auto& r, int t, int64_t v) { return r.template gauge<std::function<int64_t()>, gauges::aggregation_sum>("m", [v] { return v; }, tags(t)); }, 1);
}
SEQ_HARNESS(c05_function_averages)
{
    values<int64_t>(4, { -2, 0, 9 }, [](auto& r, int t, int64_t v) { return r.template gauge<std::function<int64_t()>>("m", [v] { return v; }, tags(t)); }, 0);
}
SEQ_HARNESS(c05_ewma)
{
    values<double>(4, { 0, 2, 7.5 }, [](auto& r, int t, double v) { auto m = r.template ewma<S10, S1, double>("m", tags(t)); m->mark(v); return m; }, 0);
}

// moving averages, meters and timers with different histories
namespace
{
template<typename M, typename Get, typename Do>
void histories(int maxn, int steps, const Get& get, const Do& act)
{
    metrics_registry<> r;
    std::vector<std::shared_ptr<M>> all;
    int n = 1 + seq::choose(maxn);
    seq::set_now(5 * S);
    for (int t : order(n)) all.push_back(get(r, t));
    for (int s = 0; s < steps; ++s)
    {
        for (int i = 0; i < n; ++i)
            act(*all[i], seq::choose(3));
        if (seq::choose(2)) seq::advance(3 * S / 2);
    }
    for (auto& m : all) m->snapshot();   // let intervals that are over be completed
    reg::verify(r, all);
}
}
SEQ_HARNESS(c05_ewma_histories)
{
    using M = cxxmetrics::ewma<S10, S1, double>;
    histories<M>(3, 2, [](auto& r, int t) { return r.template ewma<S10, S1, double>("m", tags(t)); }, [](M& m, int c) { if (c) m.mark(c == 1 ? 1 : 6.5); });
}
SEQ_HARNESS(c05_meter_histories)
{
    using M = meter<S1, S10, M1>;
    histories<M>(3, 2, [](auto& r, int t) { return r.template meter<S1, S10, M1>("m", tags(t)); }, [](M& m, int c) { if (c) m.mark(c == 1 ? 1 : 6); });
}
SEQ_HARNESS(c05_timer_histories)
{
    using M = timer<S1, steady, tres, S10, M1>;
    histories<M>(2, 3, [](auto& r, int t) { return r.template timer<S1, steady, tres, S10, M1>("m", tres(), tags(t)); }, [](M& m, int c) { if (c) m.update(steady::duration(c == 1 ? 5 : 3)); });
}
SEQ_HARNESS(c05_timer_histories_three, seq::F_THOROUGH)
{
    using M = timer<S1, steady, tres, S10, M1>;
    histories<M>(3, 3, [](auto& r, int t) { return r.template timer<S1, steady, tres, S10, M1>("m", tres(), tags(t)); }, [](M& m, int c) { if (c) m.update(steady::duration(c == 1 ? 5 : 3)); });
}
SEQ_HARNESS(c05_meter_histories_four, seq::F_THOROUGH)
{
    using M = meter<S1, S10, M1>;
    histories<M>(4, 2, [](auto& r, int t) { return r.template meter<S1, S10, M1>("m", tags(t)); }, [](M& m, int c) { if (c) m.mark(c == 1 ? 1 : 6); });
}

// histograms over reservoirs of every kind, empty, partly filled and overflowed
namespace
{
template<typename R>
void hists(int maxn, int maxfill)
{
    using M = histogram<int64_t, R>;
    metrics_registry<> r;
    std::vector<std::shared_ptr<M>> all;
    int n = 1 + seq::choose(maxn);
    uint64_t total = 0;
    for (int t : order(n))
    {
        auto m = r.histogram<R>("m", R(), tags(t));
        int fill = seq::choose(maxfill + 1), v = seq::choose(2);
        for (int i = 0; i < fill; ++i) m->update(v * (i ? 4 - i : 9));
        total += fill;
        all.push_back(m);
    }
    shown w = reg::verify(r, all);
    SEQ_CHECK(w.count == total, "%llu values counted of %llu", (unsigned long long)w.count, (unsigned long long)total);
}
}
SEQ_HARNESS(c05_recent_histograms) { hists<simple_reservoir<int64_t, 2>>(4, 3); }
SEQ_HARNESS(c05_uniform_histograms) { hists<uniform_reservoir<int64_t, 2>>(3, 3); }

// snapshots merged as any binary tree, in any order: the result is that of the whole
namespace
{
template<typename Snap>
void trees(int n, const std::vector<shown>& leaves, std::vector<Snap>& parts)
{
    shown want = combine(leaves), got;
    while (parts.size() > 1)
    {
        int i = seq::choose((int)parts.size()), j = seq::choose((int)parts.size() - 1);
        if (j >= i) ++j;
        shown before, after;
        shower { before }(parts[j]);
        parts[i].merge(parts[j]);
        shower { after }(parts[j]);
        SEQ_CHECK(same(before, after), "merging changed the merged snapshot from [%s] to [%s]", text(before).c_str(), text(after).c_str());
        std::vector<Snap> rest;
        for (std::size_t k = 0; k < parts.size(); ++k) if ((int)k != j) rest.push_back(std::move(parts[k]));
        parts = std::move(rest);
    }
    shower { got }(parts[0]);
    SEQ_CHECK(same(got, want), "%d merged snapshots give [%s], expected [%s]", n, text(got).c_str(), text(want).c_str());
}
template<typename Snap, typename Make>
void merges(int maxn, int options, const Make& make)
{
    int n = 2 + seq::choose(maxn - 1);
    std::vector<shown> leaves(n);
    std::vector<Snap> parts;
    for (int i = 0; i < n; ++i)
    {
        int o = seq::choose(options);
        parts.push_back(make(o));
        shower { leaves[i] }(parts.back());
    }
    trees(n, leaves, parts);
}
meter_snapshot some_meter(int o)
{
    static const int m[] = { 0, 3, 8 }, a[] = { 5, 0, 2 }, b[] = { 4, 1, 9 };
    std::unordered_map<steady::duration, metric_value> rates;
    if (o == 1) { rates.emplace(std::chrono::minutes(1), metric_value(b[o] * 1.0)); rates.emplace(std::chrono::seconds(10), metric_value(a[o] * 1.0)); }
    else { rates.emplace(std::chrono::seconds(10), metric_value(a[o] * 1.0)); rates.emplace(std::chrono::minutes(1), metric_value(b[o] * 1.0)); }
    return meter_snapshot(metric_value(m[o] * 1.0), std::move(rates));
}
histogram_snapshot some_histogram(int o)
{
    static const std::vector<int64_t> v[] = { {}, { 5 }, { 9, 1 }, { 1 } };
    static const uint64_t c[] = { 0, 4, 2, 1 };
    return histogram_snapshot(reservoir_snapshot(v[o].begin(), v[o].end(), v[o].size()), c[o]);
}
}
SEQ_HARNESS(c05_merge_averages)
{
    merges<average_value_snapshot>(seq::thorough() ? 5 : 4, 3, [](int o) { static const double v[] = { 0, 1.5, -6 }; return average_value_snapshot(metric_value(v[o])); });
}
SEQ_HARNESS(c05_merge_sums)
{
    merges<cumulative_value_snapshot>(seq::thorough() ? 5 : 4, 3, [](int o) { static const int64_t v[] = { 0, 7, -6 }; return cumulative_value_snapshot(metric_value(v[o])); });
}
SEQ_HARNESS(c05_merge_meters) { merges<meter_snapshot>(4, 3, some_meter); }
SEQ_HARNESS(c05_merge_histograms) { merges<histogram_snapshot>(4, seq::thorough() ? 4 : 3, some_histogram); }
SEQ_HARNESS(c05_merge_timers) { merges<timer_snapshot>(seq::thorough() ? 4 : 3, 3, [](int o) { return timer_snapshot(some_histogram(o), some_meter((o + 1) % 3)); }); }

// many tag sets
SEQ_HARNESS(c05_many)
{
    int n = seq::pick({ 13, 14, 100, 1000 }), kind = seq::choose(4);
    metrics_registry<> r;
    ld sum = 0;
    shown got;
    for (int i = 0; i < n; ++i)
    {
        tag_collection t { { "t", i } };
        sum += i;
        switch (kind)
        {
            case 0: r.counter<int64_t>("m", int64_t(i), t); break;
            case 1: r.gauge<int64_t>("m", int64_t(i), t); break;
            case 2: r.meter<S1, S10>("m", t)->mark(i); break;
            default: r.histogram<hres>("m", hres(), t)->update(i); break;
        }
    }
    reg::the_metric(r)->aggregate(shower { got });
    if (kind < 3) SEQ_CHECK(std::fabs(got.value - (kind ? sum / n : sum)) < 1e-6L, "%d values of sum %Lg aggregate to %Lg", n, sum, got.value);
    else SEQ_CHECK(got.count == (uint64_t)n && (n > 8 || (int)got.samples.size() == n), "%llu of %d values counted", (unsigned long long)got.count, n);
}
