// @engine seq
// C24: copies equal the original at the moment of copying and are independent afterwards. The original, the copy and two uncopied
// twins (objects that saw the original's history but were never copied) are compared after every operation.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include "snap.hpp"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
using view = std::vector<long double>;

bool same(const view& a, const view& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(std::fabs(a[i] - b[i]) <= 1e-9L * (std::fabs(a[i]) + std::fabs(b[i])) + 1e-300L)) return false;
    return true;
}
std::string str(const view& v)
{
    std::string r = "(";
    for (auto x : v) r += seq::fmt("%s%.9Lg", r.size() > 1 ? ", " : "", x);
    return r + ")";
}
view reservoir_view(const reservoir_snapshot& s)
{
    view r { (long double)s.size() };
    if (s.size() > 12)
    {
        r.push_back(static_cast<long double>(s.min()));
        r.push_back(static_cast<long double>(s.max()));
        r.push_back(static_cast<long double>(s.mean()));
        for (auto q : snap::percentiles(s, std::make_index_sequence<126>())) r.push_back(q);
        return r;
    }
    for (auto x : snap::ints(s)) r.push_back(x);
    return r;
}

// a kind of metric: how to make one, its operations, and everything that can be seen of it without changing it
template<typename T> struct counter_kind
{
    using type = counter<T>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& c, int op) { if (op == 0) ++c; else if (op == 1) c.incr(T(5)); else c = T(100); }
    static view look(const type& c) { return { (long double)c.value(), static_cast<long double>(c.snapshot().value()) }; }
    static std::vector<int64_t> advances() { return {}; }
};

template<typename T, gauges::gauge_aggregation_type A> struct gauge_kind
{
    using type = gauge<T, A>;
    static type* make() { return new type(T(0)); }
    static constexpr int ops = 3;
    static void apply(type& g, int op) { g.set(T(op * 7 - 3)); }
    static view look(const type& g) { return { (long double)g.get(), static_cast<long double>(g.snapshot().value()) }; }
    static std::vector<int64_t> advances() { return {}; }
};

template<typename V> struct ewma_kind
{
    using type = ewma<10_sec, 1_sec, V>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& e, int op) { if (op == 0) e.mark(4); else if (op == 1) e.mark(1000); else e.rate(); }
    static view look(const type& e) { return { (long double)e.rate(), static_cast<long double>(e.snapshot().value()) }; }
    static std::vector<int64_t> advances() { return { S / 2, S, 3 * S }; }
};

struct meter_kind
{
    using type = meter<1_sec, 5_sec, 1_min>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& m, int op) { if (op == 0) m.mark(); else if (op == 1) m.mark(50); else m.rate<5_sec>(); }
    static view look(const type& m)
    {
        auto s = m.snapshot();
        view r { m.mean(), m.rate<5_sec>().rate, m.rate<1_min>().rate, static_cast<long double>(s.value()) };
        for (auto d : { std::chrono::seconds(5), std::chrono::seconds(60) })
            for (auto& w : s) if (w.first == d) r.push_back(static_cast<long double>(w.second));
        return r;
    }
    static std::vector<int64_t> advances() { return { S / 2, S, 3 * S }; }
};

template<size_t N> struct simple_kind
{
    using type = simple_reservoir<int, N>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& r, int op) { for (int i = 0; i <= op; ++i) r.update(op * 10 + i); }
    static view look(const type& r) { return reservoir_view(r.snapshot()); }
    static std::vector<int64_t> advances() { return {}; }
};

template<size_t N> struct window_kind
{
    using type = sliding_window_reservoir<int, N>;
    static type* make() { return new type(std::chrono::seconds(2)); }
    static type* other() { return new type(std::chrono::seconds(7)); }
    static constexpr int ops = 2;
    static void apply(type& r, int op) { for (int i = 0; i <= op; ++i) r.update(op * 10 + i); }
    static view look(const type& r) { return reservoir_view(r.snapshot()); }
    static std::vector<int64_t> advances() { return { S, 3 * S }; }
};

template<typename R> struct histogram_kind
{
    using type = histogram<int, R>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& h, int op) { for (int i = 0; i <= op; ++i) h.update(op * 10 + i); }
    static view look(const type& h)
    {
        auto s = h.snapshot();
        view r = reservoir_view(s);
        r.push_back(h.count());
        r.push_back(s.count());
        return r;
    }
    static std::vector<int64_t> advances() { return { S }; }
};

struct timer_kind
{
    using type = timer<1_sec, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 3>, 5_sec>;
    static type* make() { return new type(); }
    static constexpr int ops = 3;
    static void apply(type& t, int op) { if (op == 0) t.update(std::chrono::nanoseconds(40)); else if (op == 1) t.update(std::chrono::milliseconds(3)); else for (int i = 0; i < 4; ++i) t.update(std::chrono::nanoseconds(9 + i)); }
    static view look(const type& t)
    {
        auto s = t.snapshot();
        view r { t.mean(), t.rate<5_sec>().rate, (long double)t.count(), (long double)s.count(), (long double)s.size(), static_cast<long double>(s.rate().value()) };
        for (auto x : snap::ints(s)) r.push_back(x);
        return r;
    }
    static std::vector<int64_t> advances() { return { S / 2, 2 * S }; }
};

// the same kind after many updates
template<typename K, int... N> struct worn
{
    using type = typename K::type;
    static type* make()
    {
        static const int updates[] = { N... };
        type* r = K::make();
        int n = updates[which];
        for (int i = 0; i < n; ++i) r->update(typename std::decay<decltype(value(*r))>::type(1000 + (i * 7919) % 10007));
        return r;
    }
    static constexpr int ops = K::ops;
    static int which;
    template<typename T> static auto value(const T&) -> typename K::value { return {}; }
    static void apply(type& t, int op) { K::apply(t, op); }
    static view look(const type& t) { return K::look(t); }
    static std::vector<int64_t> advances() { return K::advances(); }
    static void choose() { which = seq::choose(sizeof...(N)); }
};
template<typename K, int... N> int worn<K, N...>::which = 0;
template<typename K, typename V> struct valued : K { using value = V; };

template<typename K> auto other(int) -> decltype(K::other()) { return K::other(); }
template<typename K> typename K::type* other(...) { return K::make(); }

template<typename K>
void copies(int pre, int tpre, int post)
{
    using type = typename K::type;
    const auto adv = K::advances();
    const int nops = K::ops, nadv = (int)adv.size();
    // the original and two twins, which never are copied. twin 0 follows the original, twin 1 the copy
    std::unique_ptr<type> orig(K::make()), twin0(K::make()), twin1(K::make());
    std::unique_ptr<type> copy;

    // 0: copy construction, 1: assignment, 2: construction from an rvalue, 3: assignment of an rvalue, 4: self assignment of a copy,
    // 5: the original is destroyed after the assignment, 6: a chain of copies whose middle is destroyed
    int how = seq::choose(7);
    bool over = how == 1 || how == 3 || how == 5;
    if (over) copy.reset(other<K>(0));

    std::string wh;
    for (int d = 0; d < pre; ++d)
    {
        int o = seq::choose(nops + nadv + 1);
        if (!o) break;
        seq::op();
        if (o <= nops)
        {
            for (auto t : { orig.get(), twin0.get(), twin1.get() }) K::apply(*t, o - 1);
            seq::log("original: operation %d", o - 1);
        }
        else
        {
            seq::advance(adv[o - nops - 1]);
            seq::log("time: +%lld", (long long)adv[o - nops - 1]);
        }
        if (over && d < tpre)
        {
            int to = seq::choose(nops + 1);
            if (to) { K::apply(*copy, to - 1); seq::log("target: operation %d", to - 1); }
        }
    }

    switch (how)
    {
        case 0: seq::log("copy the original"); copy.reset(new type(*orig)); break;
        case 1: seq::log("assign the original to the target"); *copy = *orig; break;
        case 2: { seq::log("construct from an expiring copy"); type tmp(*orig); copy.reset(new type(std::move(tmp))); break; }
        case 3: { seq::log("assign an expiring copy to the target"); type tmp(*orig); *copy = std::move(tmp); break; }
        case 4: { seq::log("copy the original, assign both to themselves"); copy.reset(new type(*orig)); type& c = *copy; *copy = c; type& s = *orig; *orig = s; break; }
        case 5: seq::log("assign the original to the target and destroy it"); *copy = *orig; orig.reset(); break;
        case 6: { seq::log("copy a copy that's destroyed"); std::unique_ptr<type> mid(new type(*orig)); copy.reset(new type(*mid)); K::apply(*mid, 0); break; }
    }

    auto compare = [&](const char* when) {
        if (orig)
        {
            auto a = K::look(*orig), b = K::look(*twin0);
            SEQ_CHECK(same(a, b), "%s the original shows %s, expected %s", when, str(a).c_str(), str(b).c_str());
        }
        auto a = K::look(*copy), b = K::look(*twin1);
        SEQ_CHECK(same(a, b), "%s the copy shows %s, expected %s", when, str(a).c_str(), str(b).c_str());
    };
    compare("after copying");
    for (int d = 0; d < post; ++d)
    {
        int o = seq::choose(2 * nops + nadv);
        seq::op();
        if (o < nops)
        {
            if (!orig) return;
            K::apply(*orig, o); K::apply(*twin0, o);
            seq::log("original: operation %d", o);
        }
        else if (o < 2 * nops)
        {
            K::apply(*copy, o - nops); K::apply(*twin1, o - nops);
            seq::log("copy: operation %d", o - nops);
        }
        else
        {
            seq::advance(adv[o - 2 * nops]);
            seq::log("time: +%lld", (long long)adv[o - 2 * nops]);
        }
        compare("later");
    }
}

int pick(int quick, int thorough) { return seq::thorough() ? thorough : quick; }
}

SEQ_HARNESS(c24_counter_i64, seq::F_LEAK) { copies<counter_kind<int64_t>>(3, 2, pick(3, 5)); }
SEQ_HARNESS(c24_counter_u32, seq::F_LEAK) { copies<counter_kind<uint32_t>>(3, 2, pick(3, 5)); }
SEQ_HARNESS(c24_gauge_sum, seq::F_LEAK) { copies<gauge_kind<int, gauges::aggregation_sum>>(2, 2, pick(3, 5)); }
SEQ_HARNESS(c24_gauge_avg, seq::F_LEAK) { copies<gauge_kind<double, gauges::aggregation_average>>(2, 2, pick(3, 5)); }
SEQ_HARNESS(c24_ewma, seq::F_LEAK) { copies<ewma_kind<double>>(pick(4, 5), pick(1, 2), pick(2, 3)); }
SEQ_HARNESS(c24_ewma_float, seq::F_LEAK) { copies<ewma_kind<float>>(pick(3, 4), 1, pick(2, 3)); }
SEQ_HARNESS(c24_meter, seq::F_LEAK) { copies<meter_kind>(pick(3, 5), 1, pick(2, 3)); }
SEQ_HARNESS(c24_simple_2, seq::F_LEAK) { copies<simple_kind<2>>(2, 2, pick(3, 4)); }
SEQ_HARNESS(c24_simple_5, seq::F_LEAK) { copies<simple_kind<5>>(3, pick(2, 3), pick(2, 4)); }
SEQ_HARNESS(c24_window_3, seq::F_LEAK) { copies<window_kind<3>>(3, 2, pick(3, 4)); }
SEQ_HARNESS(c24_window_4, seq::F_LEAK) { copies<window_kind<4>>(4, 1, pick(2, 4)); }
SEQ_HARNESS(c24_histogram, seq::F_LEAK) { copies<histogram_kind<simple_reservoir<int, 3>>>(3, pick(1, 2), pick(2, 4)); }
SEQ_HARNESS(c24_histogram_window, seq::F_LEAK) { copies<histogram_kind<sliding_window_reservoir<int, 4>>>(2, 2, pick(3, 4)); }
SEQ_HARNESS(c24_timer, seq::F_LEAK) { copies<timer_kind>(3, 1, pick(2, 3)); }

// reservoirs of usual sizes, before and after they are full
namespace { template<typename K> void large() { K::choose(); copies<K>(1, 1, pick(1, 2)); } using ns = std::chrono::steady_clock::duration; }
SEQ_HARNESS(c24_simple_300, seq::F_LEAK) { large<worn<valued<simple_kind<300>, int>, 255, 300, 700>>(); }
SEQ_HARNESS(c24_window_300, seq::F_LEAK) { large<worn<valued<window_kind<300>, int>, 255, 300, 700>>(); }
SEQ_HARNESS(c24_histogram_1024, seq::F_LEAK) { large<worn<valued<histogram_kind<simple_reservoir<int, 1024>>, int>, 100, 1024, 3000>>(); }
SEQ_HARNESS(c24_histogram_uniform, seq::F_LEAK) { large<worn<valued<histogram_kind<uniform_reservoir<int, 1024>>, int>, 200, 1000>>(); }
SEQ_HARNESS(c24_timer_worn, seq::F_LEAK) { large<worn<valued<timer_kind, ns>, 0, 1000, 3000>>(); }
