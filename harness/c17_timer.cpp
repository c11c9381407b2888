// @engine seq
// C17: timers log what they are told, once, in the histogram, the count and the rate; scoped timers log the time from their
// construction or last reset to the end of their scope unless cleared or moved from; time() passes results and exceptions.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/metrics_registry.hpp>
#include "snap.hpp"
#include "ewma_model.hpp"
#include <algorithm>
#include <memory>
#include <stdexcept>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10));

// a clock with a state: its time is that of the simulation plus what the instance says
struct own_clock
{
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<own_clock>;
    static constexpr bool is_steady = false;
    std::shared_ptr<int64_t> offset;
    own_clock() : offset(std::make_shared<int64_t>(0)) { }
    explicit own_clock(std::shared_ptr<int64_t> o) : offset(std::move(o)) { }
    time_point now() const { return time_point(duration(seq::now() + *offset)); }
};
template<typename D>
struct coarse
{
    using duration = D; using rep = typename D::rep; using period = typename D::period; using time_point = std::chrono::time_point<coarse>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::nanoseconds(seq::now()))); }
};

// everything that's expected of a timer
struct model
{
    std::vector<long long> logged;       // in nanoseconds
    std::vector<int64_t> at;             // and when
    int64_t window = -1;                 // how long the reservoir keeps them, -1 for good
    ewma_model rate { 10 * S, S, seq::now() };
    int64_t start = -1;
    void log(long long ns)
    {
        if (!ns) return;
        logged.push_back(ns);
        at.push_back(seq::now());
        if (start < 0) start = seq::now();
        rate.mark(seq::now(), 1);
    }
    std::vector<long long> recent(std::size_t cap) const
    {
        std::vector<long long> r;
        for (std::size_t i = logged.size() - std::min(cap, logged.size()); i < logged.size(); ++i)
            if (window < 0 || seq::now() - at[i] <= window) r.push_back(logged[i]);
        std::sort(r.begin(), r.end());
        return r;
    }
    long double mean() const { auto n = logged.size(); return start < 0 || start == seq::now() ? n : n / ((long double)(seq::now() - start) / S); }
};

long long ns_of(const metric_value& v) { std::chrono::nanoseconds n = v; return n.count(); }
// quantiles are calculated, so their last digit may differ
bool near(long long a, long long b) { return std::llabs(a - b) <= 2 + std::llabs(b) / 1000000000; }
bool near(const std::vector<long long>& a, const std::vector<long long>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return false;
    return true;
}

template<std::size_t N, typename TSnapshot, std::size_t... K>
std::vector<long long> ranks(const TSnapshot& s, std::index_sequence<K...>)
{
    return { ns_of(s.template value<static_cast<quantile::value>(quantile(100.0L * (K + 1) / (N + 1)))>())... };
}
template<std::size_t N> struct durations { static std::vector<long long> of(const timer_snapshot& s) { return s.size() == N ? ranks<N>(s, std::make_index_sequence<N>()) : durations<N - 1>::of(s); } };
template<> struct durations<0> { static std::vector<long long> of(const timer_snapshot&) { return {}; } };

template<typename T>
void verify(T& t, model& m, std::size_t cap, bool ticking = false)
{
    SEQ_CHECK(t.count() == m.logged.size(), "count() is %llu after %zu durations", (unsigned long long)t.count(), m.logged.size());
    SEQ_CHECK(ewma_model::close(t.mean(), m.mean()), "mean() is %g, expected %Lg", t.mean(), m.mean());
    const T& c = t;
    auto r = c.template rate<S10>();
    SEQ_CHECK(ewma_model::close(r.rate, m.rate.value(seq::now())) && r.period == std::chrono::seconds(10), "rate() is %g, expected %Lg", r.rate, m.rate.value(seq::now()));
    auto s = ticking ? t.snapshot() : c.snapshot();
    long double want = ticking ? m.rate.tick_and_read(seq::now()) : m.rate.value(seq::now());
    SEQ_CHECK(s.count() == m.logged.size(), "the snapshot counts %llu of %zu durations", (unsigned long long)s.count(), m.logged.size());
    auto recent = m.recent(cap);
    SEQ_CHECK(s.size() == recent.size(), "%zu samples of %zu durations", (std::size_t)s.size(), m.logged.size());
    auto got = durations<8>::of(s);
    SEQ_CHECK(near(got, recent), "the samples are %s ns, expected %s", snap::str(got).c_str(), snap::str(recent).c_str());
    if (!recent.empty())
    {
        long double sum = 0;
        for (auto x : recent) sum += x;
        SEQ_CHECK(near(ns_of(s.mean()), std::llround(sum / recent.size())), "the mean is %lld ns of %s", ns_of(s.mean()), snap::str(recent).c_str());
        SEQ_CHECK(ns_of(s.min()) == recent.front() && ns_of(s.max()) == recent.back(), "min %lld, max %lld of %s", ns_of(s.min()), ns_of(s.max()), snap::str(recent).c_str());
    }
    const auto& rates = s.rate();
    SEQ_CHECK(ewma_model::close(static_cast<long double>(rates.value()), m.mean()), "the mean rate of the snapshot is %Lg, expected %Lg", static_cast<long double>(rates.value()), m.mean());
    int n = 0;
    for (auto& x : rates)
    {
        SEQ_CHECK(x.first == std::chrono::seconds(10), "a rate of another window");
        SEQ_CHECK(ewma_model::close(static_cast<long double>(x.second), want), "the rate is %Lg, expected %Lg", static_cast<long double>(x.second), want);
        ++n;
    }
    SEQ_CHECK(n == 1, "%d rates", n);
    seq::op();
}

// programs over up to two scoped timers and direct updates
template<typename TTimer>
struct program
{
    using scoped = scoped_timer_t<TTimer>;
    TTimer& t;
    std::size_t cap;
    model m;
    std::unique_ptr<scoped> sc[2];
    int64_t since[2] = { -1, -1 };
    std::shared_ptr<int64_t> offset;

    int64_t time() const
    {
        using D = typename TTimer::duration;
        std::chrono::nanoseconds n(seq::now() + (offset ? *offset : 0));
        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration_cast<D>(n)).count();
    }
    void close(int i)
    {
        seq::log("scope %d ends", i);
        if (since[i] >= 0) m.log(time() - since[i]);
        since[i] = -1;
        sc[i].reset();
    }
    void step()
    {
        switch (int c = seq::choose(9))
        {
            case 0: case 1:
                if (sc[c]) close(c);
                else { seq::log("scope %d begins", c); sc[c].reset(new scoped(scoped_timer(t))); since[c] = time(); }
                break;
            case 2: if (sc[0]) { seq::log("clear 0"); sc[0]->clear(); since[0] = -1; } break;
            case 3: if (sc[0]) { seq::log("reset 0"); sc[0]->reset(); since[0] = time(); } break;
            case 4:     // the scope moves from 0 to 1
                if (sc[0] && !sc[1]) { seq::log("move 0 to 1"); sc[1].reset(new scoped(std::move(*sc[0]))); since[1] = since[0]; since[0] = -1; }
                break;
            case 5: seq::log("clock +1.1s"); seq::advance(S + S / 10); break;
            case 6: seq::log("clock +30ms"); seq::advance(30 * S / 1000); break;
            case 7:
            {
                static const int64_t v[] = { 5 * S, 0, -S / 5 };   // a clock may have been set back meanwhile
                auto d = seq::pick(v);
                seq::log("update(%lld ns)", (long long)d);
                t.update(std::chrono::duration_cast<typename TTimer::duration>(std::chrono::nanoseconds(d)));
                m.log(d);
                break;
            }
            default:
                seq::log("snapshot");
                verify(t, m, cap, true);
                break;
        }
        seq::op();
    }
    void run(int depth)
    {
        for (int i = 0; i < depth; ++i) step();
        verify(t, m, cap);
        for (int i = 0; i < 2; ++i) if (sc[i]) { seq::advance(S / 10); close(i); verify(t, m, cap); }
    }
};

template<typename TClock, typename R>
void programs(R&& res, std::size_t cap, int depth)
{
    seq::set_now(100 * S);
    timer<S1, TClock, R, S10> t(std::move(res));
    program<decltype(t)> p { t, cap };
    p.run(depth);
}
}

SEQ_HARNESS(c17_programs)
{
    using R = simple_reservoir<std::chrono::nanoseconds, 3>;
    programs<std::chrono::steady_clock>(R(), 3, seq::thorough() ? 6 : 5);
}
SEQ_HARNESS(c17_uniform)
{
    using R = uniform_reservoir<std::chrono::nanoseconds, 1024>;
    programs<std::chrono::system_clock>(R(), 1024, 3);
}
SEQ_HARNESS(c17_milliseconds)
{
    using C = coarse<std::chrono::milliseconds>;
    programs<C>(simple_reservoir<C::duration, 2>(), 2, 4);
}
SEQ_HARNESS(c17_microseconds)
{
    using C = coarse<std::chrono::microseconds>;
    programs<C>(simple_reservoir<C::duration, 8>(), 8, 4);
}
// the times go to the very reservoir the timer was given
SEQ_HARNESS(c17_window)
{
    using R = sliding_window_reservoir<std::chrono::nanoseconds, 3>;
    static const int64_t windows[] = { S / 50, 4 * S / 3 };
    int64_t w = seq::pick(windows);
    seq::set_now(100 * S);
    timer<S1, std::chrono::steady_clock, R, S10> t{R(std::chrono::nanoseconds(w))};
    program<decltype(t)> p { t, 3 };
    p.m.window = w;
    p.run(4);
}
SEQ_HARNESS(c17_window_registered)
{
    using R = sliding_window_reservoir<std::chrono::nanoseconds, 3>;
    static const int64_t windows[] = { S / 50, 4 * S / 3 };
    int64_t w = seq::pick(windows);
    seq::set_now(100 * S);
    metrics_registry<> r;
    auto t = r.timer<S1, std::chrono::steady_clock, R, S10>("t", R(std::chrono::nanoseconds(w)), { { "a", 1 } });
    // what is given when it exists already doesn't matter
    SEQ_CHECK((&*r.timer<S1, std::chrono::steady_clock, R, S10>("t", R(std::chrono::nanoseconds(77)), { { "a", 1 } }) == &*t), "another timer");
    program<typename std::decay<decltype(*t)>::type> p { *t, 3 };
    p.m.window = w;
    p.run(3);
}
// a timer made by a registry
SEQ_HARNESS(c17_registered)
{
    using R = simple_reservoir<std::chrono::nanoseconds, 3>;
    seq::set_now(100 * S);
    metrics_registry<> r;
    auto t = r.timer<S1, std::chrono::steady_clock, R, S10>("t");
    program<typename std::decay<decltype(*t)>::type> p { *t, 3 };
    p.run(4);
    SEQ_CHECK((&*r.timer<S1, std::chrono::steady_clock, R, S10>("t") == &*t), "another timer");
}
// the clock may be given with the timer; it says how long things take
SEQ_HARNESS(c17_own_clock)
{
    using R = simple_reservoir<std::chrono::nanoseconds, 8>;
    seq::set_now(100 * S);
    auto o = std::make_shared<int64_t>(0);
    timer<S1, own_clock, R, S10> t(R{}, own_clock(o));
    program<decltype(t)> p { t, 8 };
    p.offset = o;
    for (int i = 0; i < 4; ++i)
    {
        static const int64_t by[] = { 0, 7, 20 * S };
        *o += seq::pick(by);
        p.step();
    }
    verify(t, p.m, 8);
    SEQ_CHECK(t.clock().now() == own_clock::time_point(std::chrono::nanoseconds(seq::now() + *o)), "the clock of the timer isn't the one that was given");
}

// time(): results, references, nothing at all, exceptions; nested
namespace
{
struct failure { int v; };
template<bool Include, typename T>
void timed(T& t, model& m, int depth)
{
    static const int64_t by[] = { 0, 3, S };
    int64_t before = seq::now();
    int kind = seq::choose(depth ? 6 : 5);
    bool logged = true;
    switch (kind)
    {
        case 0:
        {
            auto f = [&] { seq::advance(seq::pick(by)); return 42; };
            int v = t.template time<decltype(f), Include>(f);
            SEQ_CHECK(v == 42, "the result %d is not that of the runnable", v);
            break;
        }
        case 1:
        {
            bool ran = false;
            auto f = [&] { seq::advance(seq::pick(by)); ran = true; };
            t.template time<decltype(f), Include>(f);
            SEQ_CHECK(ran, "it wasn't run");
            break;
        }
        case 2:
        {
            int x = 1;
            auto f = [&]() -> int& { seq::advance(seq::pick(by)); return x; };
            int& y = t.template time<decltype(f), Include>(f);
            SEQ_CHECK(&y == &x, "another reference");
            break;
        }
        case 3:
        {
            auto f = [&] { seq::advance(seq::pick(by)); return std::unique_ptr<std::string>(new std::string("moved")); };
            auto y = t.template time<decltype(f), Include>(f);
            SEQ_CHECK(y && *y == "moved", "another result");
            break;
        }
        case 4:
        {
            auto f = [&]() -> int { seq::advance(seq::pick(by)); throw failure { 7 }; };
            int got = 0;
            try { t.template time<decltype(f), Include>(f); } catch (const failure& e) { got = e.v; }
            SEQ_CHECK(got == 7, "the exception didn't come out");
            logged = Include;
            break;
        }
        default:
        {
            int runs = 0;
            auto f = [&] { ++runs; seq::advance(seq::pick(by)); timed<Include>(t, m, depth - 1); return runs; };
            int v = t.template time<decltype(f), Include>(f);
            SEQ_CHECK(v == 1 && runs == 1, "it ran %d times", runs);
        }
    }
    if (logged) m.log(seq::now() - before);
    seq::op();
}
template<bool Include>
void timing()
{
    using R = simple_reservoir<std::chrono::nanoseconds, 8>;
    seq::set_now(100 * S);
    timer<S1, std::chrono::steady_clock, R, S10> t;
    model m;
    for (int i = 0; i < 2; ++i) timed<Include>(t, m, 2);
    verify(t, m, 8);
}
}
SEQ_HARNESS(c17_time) { timing<false>(); }
SEQ_HARNESS(c17_time_with_exceptions) { timing<true>(); }
SEQ_HARNESS(c17_time_plain)
{
    // the way it's usually called
    using R = simple_reservoir<std::chrono::nanoseconds, 8>;
    seq::set_now(100 * S);
    timer<S1, std::chrono::steady_clock, R, S10> t;
    model m;
    for (int i = 0; i < 5; ++i)
    {
        int by = 1 + seq::choose(2);
        bool fails = seq::choose(2);
        bool threw = false;
        try { int v = t.time([&] { seq::advance(by); if (fails) throw std::runtime_error("failed"); return by; }); SEQ_CHECK(v == by, "another result"); }
        catch (const std::runtime_error& e) { threw = true; SEQ_CHECK(std::string(e.what()) == "failed", "another exception"); }
        SEQ_CHECK(threw == fails, "the exception");
        if (!fails) m.log(by);
        verify(t, m, 8);
    }
}
// scopes left by exceptions and returns log as well
SEQ_HARNESS(c17_unwinding)
{
    using R = simple_reservoir<std::chrono::nanoseconds, 8>;
    seq::set_now(100 * S);
    timer<S1, std::chrono::steady_clock, R, S10> t;
    model m;
    for (int i = 0; i < 3; ++i)
    {
        int how = seq::choose(4);
        int64_t by = 10 + i;
        auto f = [&] {
            auto s = scoped_timer(t);
            seq::advance(by);
            if (how == 0) throw failure { 1 };
            if (how == 1) return;
            if (how == 2) { s.clear(); seq::advance(5); return; }
            s.reset();
            seq::advance(5);
        };
        try { f(); } catch (const failure&) { }
        if (how < 2) m.log(by);
        if (how == 3) m.log(5);
        verify(t, m, 8);
    }
}

// times of every magnitude, to the nanosecond, by scopes, calls and direct updates
namespace
{
template<typename C, typename R>
void magnitudes()
{
    using D = typename C::duration;
    const int64_t unit = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
    static const int64_t ns[] = { 1, 127, 255, 256, 999, 1000, 1001, 32768, 65535, 65537, 999999, 1000001, 1234567, 16777217, S - 1, S + 1, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 1, (1ll << 32) + 1,
        60 * S + 1, 3600 * S + 1, 86400 * S + 7, (1ll << 53) - 1, (1ll << 53) + 1, 365 * 86400 * S + 1, 50 * 365 * 86400 * S + 3 };
    int64_t d[2];
    int how[2];
    seq::set_now(100 * S);
    timer<S1, C, R, S10> t;
    for (int i = 0; i < 2; ++i)
    {
        d[i] = std::chrono::duration_cast<D>(std::chrono::nanoseconds(seq::pick(ns))).count();
        how[i] = seq::choose(4);
        if (!d[i]) return;
        seq::log("%lld ticks of %lld ns %s", (long long)d[i], (long long)unit, how[i] == 0 ? "by a scope" : how[i] == 1 ? "by a reset scope" : how[i] == 2 ? "by a call" : "by an update");
        switch (how[i])
        {
            case 0: { auto s = scoped_timer(t); seq::advance(d[i] * unit); break; }
            case 1: { auto s = scoped_timer(t); seq::advance(d[i] * unit); s.reset(); seq::advance(d[i] * unit); break; }
            case 2: t.time([&] { seq::advance(d[i] * unit); }); break;
            default: t.update(D(d[i])); break;
        }
        auto s = t.snapshot();
        int64_t lo = i ? std::min(d[0], d[1]) : d[0], hi = i ? std::max(d[0], d[1]) : d[0];
        SEQ_CHECK(s.size() == (size_t)i + 1 && s.count() == (uint64_t)i + 1 && t.count() == (uint64_t)i + 1, "%zu samples, count %llu", (size_t)s.size(), (unsigned long long)s.count());
        SEQ_CHECK(ns_of(s.min()) == lo * unit && ns_of(s.max()) == hi * unit, "from %lld ns to %lld ns instead of %lld and %lld", ns_of(s.min()), ns_of(s.max()), (long long)(lo * unit), (long long)(hi * unit));
        auto mid = ns_of(s.mean()), med = ns_of(s.template value<static_cast<quantile::value>(quantile(50.0L))>());
        long long want = (long long)(((__int128)lo + hi) * unit / 2);
        SEQ_CHECK(std::llabs(mid - want) <= 2 + want / 1000000000 && std::llabs(med - want) <= 2 + want / 100000000, "mean %lld ns, median %lld ns instead of %lld", mid, med, want);
        seq::op();
    }
}
}
SEQ_HARNESS(c17_magnitudes) { magnitudes<std::chrono::steady_clock, simple_reservoir<std::chrono::nanoseconds, 4>>(); }
SEQ_HARNESS(c17_magnitudes_uniform) { magnitudes<std::chrono::system_clock, uniform_reservoir<std::chrono::nanoseconds, 1024>>(); }
SEQ_HARNESS(c17_magnitudes_micro) { using C = coarse<std::chrono::microseconds>; magnitudes<C, simple_reservoir<C::duration, 4>>(); }
SEQ_HARNESS(c17_magnitudes_milli) { using C = coarse<std::chrono::milliseconds>; magnitudes<C, simple_reservoir<C::duration, 4>>(); }
