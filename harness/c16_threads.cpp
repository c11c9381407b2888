// C16: concurrent marks of a meter are all counted, in the mean and in every window, in all schedules.
#include <mc.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/meter.hpp>
#include "ewma_model.hpp"
#include <map>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
using M = meter<1_sec, 10_sec, 1_min>;

struct world
{
    M m;
    ewma_model a, b;
    long double total = 0;
    int64_t start = -1;
    world() : a(10 * S, S, mc::mc_now()), b(60 * S, S, mc::mc_now()) { }
    void setup(int64_t by) { m.mark(by); a.mark(mc::mc_now(), by); b.mark(mc::mc_now(), by); total += by; if (start < 0) start = mc::mc_now(); }
    // marks that happened concurrently within one interval, the first at start or already known
    void happened(long double sum, int64_t at) { a.mark(at, sum); b.mark(at, sum); total += sum; if (start < 0) start = at; }
    // a fresh, marked or running meter, near the middle of an interval
    int prelude()
    {
        int h = mc::choose(3);
        if (h >= 1) setup(3);
        if (h >= 2) { mc::advance(3 * S / 2); m.snapshot(); a.tick_and_read(mc::mc_now()); b.tick_and_read(mc::mc_now()); setup(5); }
        mc::advance(S / 4);
        return h;
    }
    long double mean(long double sum) const { return start == mc::mc_now() || start < 0 ? sum : sum * S / (mc::mc_now() - start); }
    void verify()
    {
        const M& c = m;
        for (int i = 0; i < 2; ++i)
        {
            MC_CHECK(ewma_model::close(c.mean(), mean(total)), "mean is %g, expected %Lg", c.mean(), mean(total));
            int n = 0;
            for (auto& r : m.snapshot())
            {
                auto& x = r.first == std::chrono::seconds(10) ? a : b;
                MC_CHECK(ewma_model::close(static_cast<double>(r.second), x.tick_and_read(mc::mc_now())), "rate of window %d is %g, expected %Lg", n, static_cast<double>(r.second), x.value(mc::mc_now()));
                ++n;
            }
            MC_CHECK(n == 2, "%d windows", n);
            mc::advance(S);
        }
    }
};
}

MC_HARNESS(c16_two_marks, 0, 0, 0)
{
    world w;
    w.prelude();
    mc::parallel([&] { w.m.mark(10); }, [&] { w.m.mark(200); });
    w.happened(210, mc::mc_now());
    w.verify();
}
MC_HARNESS(c16_more_marks, 0, 0, 0)
{
    world w;
    mc::parallel([&] { w.m.mark(10); w.m.mark(3000); }, [&] { w.m.mark(200); });
    w.happened(3210, mc::mc_now());
    w.verify();
}
MC_HARNESS(c16_three_marks, 4, 2, 0)
{
    world w;
    w.prelude();
    mc::parallel([&] { w.m.mark(10); }, [&] { w.m.mark(200); }, [&] { w.m.mark(3000); });
    w.happened(3210, mc::mc_now());
    w.verify();
}
MC_HARNESS(c16_three_marks_deep, mc::F_THOROUGH | 4, 3, 0)
{
    world w;
    mc::parallel([&] { w.m.mark(10); }, [&] { w.m.mark(200); }, [&] { w.m.mark(3000); });
    w.happened(3210, mc::mc_now());
    w.verify();
}
// reading the mean meanwhile: it belongs to some of the marks, all that were done before
MC_HARNESS(c16_mean, 0, 0, 0)
{
    world w;
    w.prelude();
    int called = 0, done = 0;
    mc::parallel([&] { for (int by : { 10, 200 }) { { mc::quiet q; called += by; } mc::mc_call(1); w.m.mark(by); mc::mc_ret(1); { mc::quiet q; done += by; } } },
        [&] {
            const M& c = w.m;
            int lo, hi;
            mc::mc_call(2);
            { mc::quiet q; lo = done; }
            double v = c.mean();
            mc::mc_ret(2);
            { mc::quiet q; hi = called; }
            bool ok = false;
            for (int s : { 0, 10, 210 }) if (s >= lo && s <= hi && ewma_model::close(v, w.mean(w.total + s))) ok = true;
            MC_CHECK(ok, "mean is %g after marks of %d to %d", v, lo, hi);
        });
    w.happened(210, mc::mc_now());
    w.verify();
}
// a snapshot meanwhile has all windows; the interval is not over
MC_HARNESS(c16_snapshot, 0, 0, 0)
{
    world w;
    w.prelude();
    bool constant = mc::choose(2);
    // the rates without the mark and with it
    auto a2 = w.a, b2 = w.b;
    a2.mark(mc::mc_now(), 10); b2.mark(mc::mc_now(), 10);
    long double ra = w.a.value(mc::mc_now()), rb = w.b.value(mc::mc_now()), xa = a2.value(mc::mc_now()), xb = b2.value(mc::mc_now());
    mc::parallel([&] { w.m.mark(10); }, [&] {
        const M& c = w.m;
        auto s = constant ? c.snapshot() : w.m.snapshot();
        int n = 0;
        for (auto& r : s)
        {
            ++n;
            long double was = r.first == std::chrono::seconds(10) ? ra : rb;
            long double v = static_cast<double>(r.second);
            long double with = r.first == std::chrono::seconds(10) ? xa : xb;
            MC_CHECK(ewma_model::close(v, was) || ewma_model::close(v, with), "rate %Lg, expected %Lg or %Lg", v, was, with);
        }
        MC_CHECK(n == 2, "%d windows", n);
        double m = static_cast<double>(s.value());
        MC_CHECK(ewma_model::close(m, w.mean(w.total)) || ewma_model::close(m, w.mean(w.total + 10)), "mean %g", m);
    });
    w.happened(10, mc::mc_now());
    w.verify();
}
// the clock moves between two first marks: the life starts at one of them
MC_HARNESS(c16_start, 0, 0, 0)
{
    M m;
    int64_t t0 = mc::mc_now();
    mc::parallel([&] { m.mark(10); }, [&] { mc::advance(S / 4); m.mark(200); });
    mc::advance(S / 2);
    double v = m.mean();
    bool ok = false;
    for (int64_t s : { t0, t0 + S / 4 }) if (ewma_model::close(v, 210.0L * S / (mc::mc_now() - s))) ok = true;
    MC_CHECK(ok, "mean is %g", v);
    mc::outcome(std::to_string(v));
}
// one of the first marks was over before the clock moved: the life doesn't start later than that
MC_HARNESS(c16_started, 0, 0, 0)
{
    M m;
    int64_t t0 = mc::mc_now();
    int x = mc::choose(2);
    mc::parallel([&] { m.mark(10); mc::advance(S / 4); }, [&] { m.mark(x ? 200 : -4); });
    mc::advance(S / 2);
    double v = m.mean();
    MC_CHECK(ewma_model::close(v, (x ? 210.0L : 6.0L) * S / (mc::mc_now() - t0)), "mean is %g", v);
    mc::outcome(std::to_string(v));
}
// the interval ends while marks are under way: none is lost
MC_HARNESS(c16_boundary, 0, 0, 0)
{
    world w;
    w.setup(3);
    mc::advance(S / 4);
    mc::parallel([&] { w.m.mark(10); }, [&] { mc::advance(S); w.m.mark(200); });
    mc::advance(S);
    MC_CHECK(ewma_model::close(w.m.mean(), w.mean(213)), "mean is %g, expected %Lg", w.m.mean(), w.mean(213));
    // each mark entered the first or the second interval of each window
    const M& c = w.m;
    for (auto& r : c.snapshot())
    {
        auto fresh = r.first == std::chrono::seconds(10) ? w.a : w.b;
        double v = static_cast<double>(r.second);
        bool ok = false;
        for (int first : { 3, 13, 203, 213 })
        {
            auto x = fresh;
            x.mark(w.start + S / 2, first - 3);
            x.tick_and_read(w.start + S / 4 + S);
            x.mark(w.start + S / 4 + S, 213 - first);
            if (ewma_model::close(v, x.value(mc::mc_now()))) ok = true;
        }
        MC_CHECK(ok, "rate %g does not contain every mark once", v);
    }
}
MC_MAIN()
