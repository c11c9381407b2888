// @engine seq
// C12: statistics of reservoir snapshots for all small multisets of boundary values of each type.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/snapshots.hpp>
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
#include <array>
using namespace cxxmetrics;
using ld = long double;

namespace
{
template<typename T> struct num { static ld of(const T& v) { return (ld)v; } static const char* eps() { return ""; } static ld eps(ld) { return 0; } };
template<typename R, typename P> struct num<std::chrono::duration<R, P>> { static ld of(const std::chrono::duration<R, P>& v) { return (ld)v.count(); } };

std::string show(const std::vector<ld>& v)
{
    std::string r = "{";
    for (auto x : v) r += seq::fmt(r.size() > 1 ? ", %.20Lg" : "%.20Lg", x);
    return r + "}";
}

constexpr ld grid[] = { 0, 0.1L, 1, 5, 10, 20, 25, 100.0L / 3, 40, 50, 60, 200.0L / 3, 75, 80, 90, 95, 99, 99.9L, 99.999L, 100 };
constexpr size_t G = sizeof(grid) / sizeof(grid[0]);
template<size_t I> metric_value value_at(const reservoir_snapshot& s) { return s.value<static_cast<quantile::value>(quantile(grid[I]))>(); }
template<size_t... I> std::array<ld, G> quantiles(const reservoir_snapshot& s, std::index_sequence<I...>) { return { { static_cast<ld>(value_at<I>(s))... } }; }

// interpolation of sorted samples at rank q(n+1), clamped
ld reference(const std::vector<ld>& v, ld q)
{
    ld pos = q / 100 * (v.size() + 1);
    if (pos <= 1) return v.front();
    if (pos >= v.size()) return v.back();
    size_t i = (size_t)pos;
    return v[i - 1] + (pos - i) * (v[i] - v[i - 1]);
}

void statistics(const char* what, const reservoir_snapshot& s, std::vector<ld> v)
{
    std::sort(v.begin(), v.end());
    SEQ_CHECK(s.size() == v.size(), "%s of %s has size %zu", what, show(v).c_str(), s.size());
    if (v.empty())
    {
        SEQ_CHECK(static_cast<ld>(s.mean()) == 0 && static_cast<ld>(value_at<10>(s)) == 0, "%s without samples has mean %Lg", what, static_cast<ld>(s.mean()));
        return;
    }
    SEQ_CHECK(static_cast<ld>(s.min()) == v.front() && static_cast<ld>(s.max()) == v.back(), "%s of %s: min %.20Lg, max %.20Lg", what, show(v).c_str(), static_cast<ld>(s.min()), static_cast<ld>(s.max()));
    ld scale = std::max(fabsl(v.front()), fabsl(v.back())), range = v.back() - v.front();
    ld sum = 0;
    for (auto x : v) sum += x / v.size();
    SEQ_CHECK(fabsl(static_cast<ld>(s.mean()) - sum) <= 1e-15L * scale, "%s of %s: mean %.20Lg, expected %.20Lg", what, show(v).c_str(), static_cast<ld>(s.mean()), sum);
    auto q = quantiles(s, std::make_index_sequence<G>());
    for (size_t i = 0; i < G; ++i)
    {
        ld want = reference(v, grid[i]);
        SEQ_CHECK(fabsl(q[i] - want) <= 1e-7L * range + 1e-15L * scale, "%s of %s: quantile %Lg is %.20Lg, expected %.20Lg", what, show(v).c_str(), grid[i], q[i], want);
        SEQ_CHECK(q[i] >= v.front() && q[i] <= v.back(), "%s of %s: quantile %Lg is %.20Lg", what, show(v).c_str(), grid[i], q[i]);
        if (i) SEQ_CHECK(q[i] >= q[i - 1], "%s of %s: the quantiles decrease at %Lg", what, show(v).c_str(), grid[i]);
    }
}

void sampling(const reservoir_snapshot& s, std::vector<ld> v, size_t max)
{
    std::sort(v.begin(), v.end());
    size_t n = 0;
    ld lastq = -1, lastv = 0;
    s.sample(max, [&](const metric_value& x, quantile q) {
        ld p = q.percentile(), y = static_cast<ld>(x);
        ++n;
        SEQ_CHECK(!v.empty(), "a sample of nothing");
        SEQ_CHECK(n <= max, "more than %zu samples of %s", max, show(v).c_str());
        SEQ_CHECK(p >= 0 && p <= 100 && p > lastq, "samples of %s: quantile %Lg after %Lg", show(v).c_str(), p, lastq);
        SEQ_CHECK(n == 1 || y >= lastv, "samples of %s: value %Lg after %Lg", show(v).c_str(), y, lastv);
        ld want = reference(v, p), scale = std::max(fabsl(v.front()), fabsl(v.back()));
        SEQ_CHECK(fabsl(y - want) <= 1e-7L * (v.back() - v.front()) + 1e-15L * scale, "samples of %s: %.20Lg at quantile %Lg, expected %.20Lg", show(v).c_str(), y, p, want);
        lastq = p; lastv = y;
    });
    seq::op();
}

template<typename T>
struct chosen
{
    std::vector<T> raw;
    std::vector<ld> v;
    // every sequence (all = true) or every multiset in ascending index order
    template<size_t N> chosen(const T (&from)[N], int max, bool sequences)
    {
        int n = seq::choose(max + 1), lo = 0;
        for (int i = 0; i < n; ++i)
        {
            int k = sequences ? seq::choose((int)N) : lo + seq::choose((int)N - lo);
            lo = k;
            raw.push_back(from[k]);
            v.push_back(num<T>::of(from[k]));
        }
        seq::op(n);
        seq::log("%s", show(v).c_str());
    }
    reservoir_snapshot snapshot() const { return reservoir_snapshot(raw.data(), raw.size()); }
};

template<typename T, size_t N>
void multisets(const T (&from)[N], int size)
{
    chosen<T> c(from, size, false);
    statistics("a snapshot", c.snapshot(), c.v);
    statistics("a snapshot of a range", reservoir_snapshot(c.raw.rbegin(), c.raw.rend(), c.raw.size()), c.v);
    for (size_t max : { 0, 1, 2, 3, 5, 9, 20 }) sampling(c.snapshot(), c.v, max);
}
// in every order of insertion
template<typename T, size_t N>
void sequences(const T (&from)[N], int size)
{
    chosen<T> c(from, size, true);
    reservoir_snapshot s = c.snapshot();
    statistics("a snapshot", s, c.v);
    reservoir_snapshot m(std::move(s));
    statistics("a moved snapshot", m, c.v);
    reservoir_snapshot a(c.raw.data(), 0);
    a = std::move(m);
    statistics("an assigned snapshot", a, c.v);
    // no more than asked for
    size_t limit = seq::choose((int)c.raw.size() + 2);
    reservoir_snapshot l(c.raw.begin(), c.raw.end(), limit);
    statistics("a snapshot of the first values", l, std::vector<ld>(c.v.begin(), c.v.begin() + std::min(limit, c.v.size())));
}

template<typename T, size_t N>
void merging(const T (&from)[N], int size, int third)
{
    chosen<T> a(from, size, false), b(from, size, false);
    static const uint64_t extra[] = { 0, 1, 1000000 };
    uint64_t xa = seq::pick(extra), xb = a.v.size() + xa ? seq::pick(extra) : 0;
    histogram_snapshot ha(a.snapshot(), a.v.size() + xa), hb(b.snapshot(), b.v.size() + xb);
    ha.merge(hb);
    seq::op();
    std::vector<ld> both = a.v;
    both.insert(both.end(), b.v.begin(), b.v.end());
    statistics("a merged snapshot", ha, both);
    SEQ_CHECK(ha.count() == both.size() + xa + xb, "the merged snapshot counts %llu, expected %llu", (unsigned long long)ha.count(), (unsigned long long)(both.size() + xa + xb));
    statistics("the other snapshot", hb, b.v);
    SEQ_CHECK(hb.count() == b.v.size() + xb, "the other snapshot counts %llu", (unsigned long long)hb.count());
    if (third)
    {
        chosen<T> c(from, third, false);
        histogram_snapshot hc(c.snapshot(), c.v.size());
        ha.merge(hc);
        both.insert(both.end(), c.v.begin(), c.v.end());
        statistics("a twice merged snapshot", ha, both);
        SEQ_CHECK(ha.count() == both.size() + xa + xb, "the twice merged snapshot counts %llu", (unsigned long long)ha.count());
        for (size_t max : { 1, 4 }) sampling(ha, both, max);
    }
}

using std::chrono::nanoseconds;
using std::chrono::milliseconds;
const int8_t v8[] = { -128, -1, 0, 5, 127 };
const uint8_t u8[] = { 0, 1, 100, 255 };
const int16_t v16[] = { -32768, -3, 0, 32767 };
const int32_t v32[] = { INT32_MIN, -7, 0, 3, INT32_MAX };
const uint32_t u32[] = { 0, 2, 1u << 31, UINT32_MAX };
const int64_t v64[] = { INT64_MIN, -1000000007, -1, 0, 42, 1ll << 53, INT64_MAX };
const uint64_t u64[] = { 0, 1, 1ull << 53, 1ull << 63, UINT64_MAX };
const float vf[] = { -1e10f, -0.5f, 0, 0.25f, 3, 1e20f };
const double vd[] = { -1e100, -0.1, 0, 1e-9, 2.5, 1e18 };
const ld vl[] = { -1e30L, -0.1L, 0, 7, 9223372036854775807.0L };
const nanoseconds vn[] = { nanoseconds(-5), nanoseconds(0), nanoseconds(1), nanoseconds(1500), nanoseconds(1ll << 60) };
const milliseconds vm[] = { milliseconds(0), milliseconds(1), milliseconds(999), milliseconds(86400000) };
const int64_t vc[] = { (1ll << 60) - 65, 1ll << 60, (1ll << 60) + 127, (1ll << 60) + 129, (1ll << 60) + 130 };
const int64_t few[] = { -4, 1, 1000, INT64_MAX };
int deep() { return seq::thorough() ? 2 : 0; }
}

#define TYPES(name, values) \
    SEQ_HARNESS(c12_multisets_##name) { multisets(values, 6 + deep()); } \
    SEQ_HARNESS(c12_sequences_##name) { sequences(values, 4); } \
    SEQ_HARNESS(c12_merge_##name) { merging(values, 3 + deep() / 2, 0); }
TYPES(i8, v8) TYPES(u8, u8) TYPES(i16, v16) TYPES(i32, v32) TYPES(u32, u32) TYPES(i64, v64) TYPES(u64, u64)
TYPES(close, vc) TYPES(float, vf) TYPES(double, vd) TYPES(longdouble, vl) TYPES(ns, vn) TYPES(ms, vm)
// more values than fit into any small buffer, in many orders
namespace
{
template<typename T>
void many()
{
    static const int sizes[] = { 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600, 1024 };
    int n = seq::pick(sizes);
    static const int steps[] = { 1, -1, 2, 7, 11, 101, 1009 };
    int step = seq::pick(steps), repeat = 1 + seq::choose(3), limit = seq::choose(3);
    seq::log("%d values in steps of %d, each value %d times", n, step, repeat);
    std::vector<T> raw;
    std::vector<ld> v;
    for (int i = 0; i < n; ++i)
    {
        long x = ((long)(i / repeat) * step % n + n) % n * 37 - 5;
        raw.push_back(T(x));
        v.push_back(num<T>::of(T(x)));
    }
    if (limit == 0) statistics("a snapshot", reservoir_snapshot(raw.data(), raw.size()), v);
    else if (limit == 1) statistics("a snapshot of the first half", reservoir_snapshot(raw.begin(), raw.end(), n / 2), std::vector<ld>(v.begin(), v.begin() + n / 2));
    else
    {
        // merged from halves, and once more with itself
        histogram_snapshot a(reservoir_snapshot(raw.data(), n / 3), n / 3), b(reservoir_snapshot(raw.data() + n / 3, n - n / 3), n);
        a.merge(b);
        statistics("a merged snapshot", a, v);
        SEQ_CHECK(a.count() == (uint64_t)(n + n / 3), "it counts %llu", (unsigned long long)a.count());
        histogram_snapshot c(reservoir_snapshot(raw.data(), raw.size()), n);
        a.merge(c);
        auto twice = v;
        twice.insert(twice.end(), v.begin(), v.end());
        statistics("a twice merged snapshot", a, twice);
        for (size_t max : { 1, 5, 50, 3000 }) sampling(a, twice, max);
    }
    seq::op(n);
    for (size_t max : { 1, 4, 10, 100, 2000 }) sampling(reservoir_snapshot(raw.data(), raw.size()), v, max);
}
}
SEQ_HARNESS(c12_many_int) { many<int>(); }
SEQ_HARNESS(c12_many_double) { many<double>(); }
SEQ_HARNESS(c12_many_ns) { many<nanoseconds>(); }
SEQ_HARNESS(c12_merge_three) { merging(few, 3, 3); }

// one value snapshots
SEQ_HARNESS(c12_values)
{
    auto a = seq::pick(v64), b = seq::pick(v64);
    cumulative_value_snapshot x((metric_value(a))), y((metric_value(b)));
    SEQ_CHECK((x == y) == (a == b) && (x != y) == (a != b), "snapshots of %lld and %lld: == %d, != %d", (long long)a, (long long)b, int(x == y), int(x != y));
    SEQ_CHECK((x == metric_value(b)) == (a == b) && (x != metric_value(b)) == (a != b), "a snapshot of %lld and the value %lld: == %d, != %d", (long long)a, (long long)b, int(x == metric_value(b)), int(x != metric_value(b)));
    SEQ_CHECK(static_cast<int64_t>(x.value()) == a, "a snapshot of %lld has %lld", (long long)a, (long long)static_cast<int64_t>(x.value()));
    average_value_snapshot p((metric_value(a))), q((metric_value(b)));
    SEQ_CHECK((p == q) == (a == b) && (p != q) == (a != b), "average snapshots of %lld and %lld: == %d, != %d", (long long)a, (long long)b, int(p == q), int(p != q));
}

// averages that are merged in any order and nesting: each of the merged ones counts the same
namespace
{
struct part { std::vector<ld> v; };
ld mean_of(const std::vector<ld>& v) { ld r = 0; for (auto x : v) r += x / v.size(); return r; }
void near_mean(const char* what, const metric_value& got, const std::vector<ld>& v)
{
    SEQ_CHECK(fabsl(static_cast<ld>(got) - mean_of(v)) <= 1e-12L * 1000, "%s of %s is %.20Lg, expected %.20Lg", what, show(v).c_str(), static_cast<ld>(got), mean_of(v));
}
template<typename Make, typename Check>
void nested(int max, int kinds, Make make, Check check)
{
    using snapshot = decltype(make(0));
    int n = 2 + seq::choose(max - 1);
    std::vector<snapshot> s;
    std::vector<std::vector<int>> v;
    for (int i = 0; i < n; ++i)
    {
        int k = seq::choose(kinds);
        s.push_back(make(k));
        v.push_back({ k });
    }
    while (s.size() > 1)
    {
        int i = seq::choose((int)s.size()), j = seq::choose((int)s.size() - 1);
        if (j >= i) ++j;
        seq::log("merge %d into %d", j, i);
        seq::op();
        s[i].merge(s[j]);
        v[i].insert(v[i].end(), v[j].begin(), v[j].end());
        check(s[i], v[i]);
        check(s[j], v[j]);
        snapshot moved(std::move(s[i]));
        check(moved, v[i]);
        s[i] = std::move(moved);
        check(s[i], v[i]);
        s.erase(s.begin() + j);
        v.erase(v.begin() + j);
    }
}
const double av[] = { 0, 100, -7.5 };
std::vector<ld> pick_all(const std::vector<int>& k, ld f = 1) { std::vector<ld> r; for (int i : k) r.push_back(av[i] * f); return r; }
}
SEQ_HARNESS(c12_averages)
{
    nested(seq::thorough() ? 5 : 4, 3, [](int k) { return average_value_snapshot(metric_value(av[k])); }, [](const average_value_snapshot& s, const std::vector<int>& v) { near_mean("the average", s.value(), pick_all(v)); });
}
SEQ_HARNESS(c12_sums)
{
    nested(seq::thorough() ? 5 : 4, 3, [](int k) { return cumulative_value_snapshot(metric_value(av[k])); }, [](const cumulative_value_snapshot& s, const std::vector<int>& v) {
        auto p = pick_all(v); ld w = 0; for (auto x : p) w += x;
        SEQ_CHECK(fabsl(static_cast<ld>(s.value()) - w) <= 1e-9L, "the sum of %s is %.20Lg, expected %.20Lg", show(p).c_str(), static_cast<ld>(s.value()), w); });
}
SEQ_HARNESS(c12_meters)
{
    using std::chrono::seconds;
    nested(seq::thorough() ? 5 : 4, 3, [](int k) {
        std::unordered_map<std::chrono::steady_clock::duration, metric_value> r;
        r.emplace(seconds(1), metric_value(av[k] * 2));
        r.emplace(seconds(60), metric_value(av[k] * 3));
        return meter_snapshot(metric_value(av[k]), std::move(r)); },
        [](const meter_snapshot& s, const std::vector<int>& v) {
            near_mean("the mean", s.value(), pick_all(v));
            int n = 0;
            for (auto& r : s) { ++n; near_mean("a rate", r.second, pick_all(v, r.first == seconds(1) ? 2 : 3)); }
            SEQ_CHECK(n == 2, "%d rates", n); });
}
// histograms and timers keep their samples, counts and rates through merges and moves
namespace
{
const std::vector<ld> samples[] = { { }, { 5 }, { 1, 2, 9 } };
std::vector<ld> pooled(const std::vector<int>& k) { std::vector<ld> r; for (int i : k) r.insert(r.end(), samples[i].begin(), samples[i].end()); return r; }
uint64_t counted(const std::vector<int>& k) { uint64_t r = 0; for (int i : k) r += samples[i].size() + 10 * i; return r; }
histogram_snapshot histogram_of(int k) { std::vector<int64_t> r(samples[k].begin(), samples[k].end()); return histogram_snapshot(reservoir_snapshot(r.data(), r.size()), counted({ k })); }
}
SEQ_HARNESS(c12_histograms)
{
    nested(4, 3, histogram_of, [](const histogram_snapshot& s, const std::vector<int>& k) {
        statistics("a histogram", s, pooled(k));
        SEQ_CHECK(s.count() == counted(k), "a histogram counts %llu, expected %llu", (unsigned long long)s.count(), (unsigned long long)counted(k)); });
}
SEQ_HARNESS(c12_timers)
{
    using std::chrono::seconds;
    nested(4, 3, [](int k) {
        std::vector<nanoseconds> n;
        for (auto x : samples[k]) n.push_back(nanoseconds(int64_t(x)));
        std::unordered_map<std::chrono::steady_clock::duration, metric_value> r;
        r.emplace(seconds(1), metric_value(av[k] * 2));
        return timer_snapshot(histogram_snapshot(reservoir_snapshot(n.data(), n.size()), counted({ k })), meter_snapshot(metric_value(av[k]), std::move(r))); },
        [](const timer_snapshot& s, const std::vector<int>& k) {
            auto v = pooled(k);
            SEQ_CHECK(s.size() == v.size() && s.count() == counted(k), "a timer has %zu times and counts %llu, expected %zu and %llu", (size_t)s.size(), (unsigned long long)s.count(), v.size(), (unsigned long long)counted(k));
            if (!v.empty())
            {
                nanoseconds lo = s.min(), hi = s.max(), mean = s.mean();
                ld want = mean_of(v);
                SEQ_CHECK(lo.count() == *std::min_element(v.begin(), v.end()) && hi.count() == *std::max_element(v.begin(), v.end()), "the times %s are %lld to %lld", show(v).c_str(), (long long)lo.count(), (long long)hi.count());
                SEQ_CHECK(fabsl(mean.count() - want) <= 1, "the mean of %s is %lld", show(v).c_str(), (long long)mean.count());
            }
            near_mean("the mean rate", s.rate().value(), pick_all(k));
            int n = 0;
            for (auto& r : s.rate()) { ++n; near_mean("a rate", r.second, pick_all(k, 2)); }
            SEQ_CHECK(n == 1, "%d rates", n); });
}

// quantiles written as literals denote that percentage
SEQ_HARNESS(c12_literals)
{
    using namespace cxxmetrics_literals;
    std::vector<ld> v;
    std::vector<int> in;
    int n = 1 + seq::choose(12);
    for (int i = 0; i < n; ++i) { v.push_back(10 * i); in.push_back(10 * i); }
    reservoir_snapshot s(in.data(), in.size());
    seq::log("%d values", n);
#define SAME(lit, num) { ld got = static_cast<ld>(s.template value<lit>()), want = reference(v, num); SEQ_CHECK(fabsl(got - want) <= 1e-6L * (n + 1), #lit " is %Lg, expected %Lg", got, want); }
    SAME(0_p, 0) SAME(1_p, 1) SAME(25_p, 25) SAME(50_p, 50) SAME(75_p, 75) SAME(90_p, 90) SAME(99_p, 99) SAME(100_p, 100) SAME(99.9_p, 99.9L) SAME(12.5_p, 12.5L) SAME(0.5_p, 0.5L)
#undef SAME
    seq::op(11);
}
