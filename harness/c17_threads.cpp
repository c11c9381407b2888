// C17: durations logged concurrently, directly and by scoped timers, are each counted, sampled and rated once, in all schedules.
#include <mc.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include "snap.hpp"
#include "ewma_model.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10));
using R = simple_reservoir<std::chrono::nanoseconds, 8>;
using T = timer<S1, std::chrono::steady_clock, R, S10>;

long long ns_of(const metric_value& v) { std::chrono::nanoseconds n = v; return n.count(); }
std::chrono::nanoseconds ns(long long v) { return std::chrono::nanoseconds(v); }

void verify(T& t, std::vector<long long> want)
{
    std::sort(want.begin(), want.end());
    const T& c = t;
    MC_CHECK(c.count() == want.size(), "count() is %llu after %zu durations", (unsigned long long)c.count(), want.size());
    auto s = c.snapshot();
    MC_CHECK(s.count() == want.size(), "the snapshot counts %llu of %zu durations", (unsigned long long)s.count(), want.size());
    MC_CHECK(s.size() == want.size(), "%zu samples of %zu durations", (std::size_t)s.size(), want.size());
    MC_CHECK(ns_of(s.min()) == want.front() && ns_of(s.max()) == want.back(), "samples %lld to %lld, expected %lld to %lld", ns_of(s.min()), ns_of(s.max()), want.front(), want.back());
    long long sum = 0;
    for (auto x : want) sum += x;
    long long mean = ns_of(s.mean());
    MC_CHECK(std::llabs(mean - sum / (long long)want.size()) <= 1, "the samples have the mean %lld, expected %lld", mean, sum / (long long)want.size());
    MC_CHECK(ewma_model::close(static_cast<double>(s.rate().value()), want.size()), "the mean rate is %g, expected %zu", static_cast<double>(s.rate().value()), want.size());
    MC_CHECK(ewma_model::close(c.rate<S10>().rate, want.size()), "the rate is %g, expected %zu", c.rate<S10>().rate, want.size());
}
}

MC_HARNESS(c17_updates, 0, 0, 0)
{
    T t;
    mc::parallel([&] { t.update(ns(10)); }, [&] { t.update(ns(2000)); });
    verify(t, { 10, 2000 });
}
MC_HARNESS(c17_more_updates, mc::F_PB, 3, 0)
{
    T t;
    mc::parallel([&] { t.update(ns(10)); t.update(ns(0)); t.update(ns(30)); }, [&] { t.update(ns(2000)); });
    verify(t, { 10, 30, 2000 });
}
MC_HARNESS(c17_three_updates, mc::F_PB, 2, 0)
{
    T t;
    if (mc::choose(2)) { t.update(ns(5)); mc::parallel([&] { t.update(ns(10)); }, [&] { t.update(ns(2000)); }, [&] { t.update(ns(300)); }); verify(t, { 5, 10, 300, 2000 }); }
    else { mc::parallel([&] { t.update(ns(10)); }, [&] { t.update(ns(2000)); }, [&] { t.update(ns(300)); }); verify(t, { 10, 300, 2000 }); }
}
// scopes that overlap in every way, while the clock moves
MC_HARNESS(c17_scopes, mc::F_PB, 3, 0)
{
    T t;
    int64_t t0 = mc::mc_now();
    int64_t lo[2], hi[2];
    auto scope = [&](int i, int64_t by) {
        int64_t b0, b1, e0, e1;
        {
            mc::mc_call(i); { mc::quiet q; b0 = mc::mc_now(); }
            auto s = scoped_timer(t);
            mc::mc_ret(i); { mc::quiet q; b1 = mc::mc_now(); }
            mc::advance(by);
            mc::mc_call(i); { mc::quiet q; e0 = mc::mc_now(); }
        }
        mc::mc_ret(i); { mc::quiet q; e1 = mc::mc_now(); lo[i] = e0 - b1; hi[i] = e1 - b0; }
    };
    mc::parallel([&] { scope(0, 100); }, [&] { scope(1, 3000); });
    auto s = t.snapshot();
    MC_CHECK(s.count() == 2 && s.size() == 2, "%llu counted, %zu samples", (unsigned long long)s.count(), (std::size_t)s.size());
    long long a = ns_of(s.min()), b = ns_of(s.max());
    MC_CHECK((a >= lo[0] && a <= hi[0] && b >= lo[1] && b <= hi[1]) || (a >= lo[1] && a <= hi[1] && b >= lo[0] && b <= hi[0]), "the scopes took %lld and %lld ns", a, b);
    mc::outcome(std::to_string(a) + " " + std::to_string(b));
}
// a snapshot meanwhile: consistent with what was logged before, and with what may have been
MC_HARNESS(c17_snapshot, mc::F_PB, 3, 0)
{
    T t;
    int done = 0, called = 0;
    if (mc::choose(2)) { t.update(ns(5)); done = called = 1; }
    int before = done;
    mc::parallel([&] { for (int v : { 10, 2000 }) { { mc::quiet q; ++called; } mc::mc_call(1); t.update(ns(v)); mc::mc_ret(1); { mc::quiet q; ++done; } } },
        [&] {
            const T& c = t;
            int lo, hi;
            mc::mc_call(2); { mc::quiet q; lo = done; }
            auto s = c.snapshot();
            auto n = c.count();
            mc::mc_ret(2); { mc::quiet q; hi = called; }
            MC_CHECK((int)s.count() >= lo && (int)s.count() <= hi && n >= s.count() && (int)n <= hi, "the snapshot counts %llu, count() %llu, of %d to %d", (unsigned long long)s.count(), (unsigned long long)n, lo, hi);
            MC_CHECK((int)s.size() >= lo && s.size() <= s.count(), "%zu samples of %llu, at least %d", (std::size_t)s.size(), (unsigned long long)s.count(), lo);
            double m = static_cast<double>(s.rate().value());
            MC_CHECK(m >= lo && m <= hi, "a mean rate of %g", m);
            if (s.size()) { long long x = ns_of(s.max()); MC_CHECK(x == 5 || x == 10 || x == 2000, "a sample of %lld", x); }
        });
    verify(t, before ? std::vector<long long>{ 5, 10, 2000 } : std::vector<long long>{ 10, 2000 });
}
// time() in two threads: every run is logged and gets its own result
MC_HARNESS(c17_time_in_threads, mc::F_PB, 3, 0)
{
    T t;
    int a = 0, b = 0;
    bool thrown = false;
    mc::parallel([&] { a = t.time([] { mc::advance(100); return 1; }); },
        [&] { try { b = t.time([]() -> int { mc::advance(3000); throw 5; }); } catch (int x) { thrown = x == 5; } });
    MC_CHECK(a == 1 && b == 0 && thrown, "results %d %d, thrown %d", a, b, (int)thrown);
    auto s = t.snapshot();
    MC_CHECK(s.count() == 1 && s.size() == 1, "%llu counted, %zu samples", (unsigned long long)s.count(), (std::size_t)s.size());
    long long x = ns_of(s.max());
    MC_CHECK(x == 100 || x == 3100, "it took %lld", x);
}
MC_MAIN()
