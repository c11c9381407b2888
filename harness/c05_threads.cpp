// C05: aggregating while other threads update the metrics or register further tag sets, all schedules.
#include <mc.hpp>
#include <cstring>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;

namespace
{
using hres = simple_reservoir<int64_t, 2>;
struct total
{
    int64_t* value; int* calls;
    void operator()(const cumulative_value_snapshot& s) const { *value = static_cast<int64_t>(s.value()); ++*calls; }
    void operator()(const average_value_snapshot& s) const { *value = (int64_t)(static_cast<double>(s.value()) * 1000); ++*calls; }
    void operator()(const histogram_snapshot& s) const { *value = (int64_t)s.count() * 10 + (int64_t)s.size(); ++*calls; }
};
struct world
{
    metrics_registry<> r;
    tag_collection none, a, b;
    metric_path p;
    basic_registered_metric* m = nullptr;
    world() : a { { "k", 1 } }, b { { "k", 2 } }, p("m") { }
    void find() { auto h = [this](const metric_path&, basic_registered_metric& x) { m = &x; }; r.visit_registered_metrics(h); }
    int64_t aggregate() { int64_t v = -1; int calls = 0; m->aggregate(total { &v, &calls }); MC_CHECK(calls == 1, "the handler was called %d times", calls); return v; }
};
}

// the total of two counters lies between their values before and after, and never goes down
MC_HARNESS(c05_counting, 0, 0, 0)
{
    world w;
    auto x = w.r.counter<int64_t>(w.p, 10, w.a);
    auto y = w.r.counter<int64_t>(w.p, 100, w.b);
    w.find();
    int done = 0, started = 0;
    mc::parallel(
        [&] { { mc::quiet q; ++started; } mc::mc_call(0); *x += 1; mc::mc_ret(0); { mc::quiet q; ++done; } { mc::quiet q; ++started; } mc::mc_call(0); *y += 1; mc::mc_ret(0); { mc::quiet q; ++done; } },
        [&] {
            int64_t last = 0;
            for (int i = 0; i < 2; ++i)
            {
                int lo, hi;
                mc::mc_call(1);
                { mc::quiet q; lo = done; }
                int64_t v = w.aggregate();
                mc::mc_ret(1);
                { mc::quiet q; hi = started; }
                MC_CHECK(v >= 110 + lo && v <= 110 + hi, "total %lld of %d to %d increments", (long long)(v - 110), lo, hi);
                MC_CHECK(v >= last, "the total goes down from %lld to %lld", (long long)last, (long long)v);
                last = v;
            }
        });
    MC_CHECK(w.aggregate() == 112, "final total %lld", (long long)w.aggregate());
}

// another tag set is registered meanwhile: it counts or not, entirely
MC_HARNESS(c05_registering, 0, 0, 0)
{
    world w;
    int kind = mc::choose(3);
    auto add = [&](const tag_collection& t, int v)
    {
        if (kind == 0) w.r.counter<int64_t>(w.p, int64_t(v), t);
        else if (kind == 1) w.r.gauge<int64_t>(w.p, int64_t(v), t);
        else w.r.histogram<hres>(w.p, hres(), t)->update(v);
    };
    add(w.a, 4);
    w.find();
    int64_t before = w.aggregate(), v = 0;
    mc::parallel([&] { add(w.b, 8); }, [&] { v = w.aggregate(); });
    int64_t after = w.aggregate();
    static const int64_t first[] = { 4, 4000, 11 }, both[] = { 12, 6000, 22 };
    MC_CHECK(before == first[kind] && after == both[kind], "%lld before, %lld after", (long long)before, (long long)after);
    MC_CHECK(v == before || v == after || (kind == 2 && v == 21 /* counted, not yet stored */), "aggregate %lld, %lld before and %lld after", (long long)v, (long long)before, (long long)after);
}

// two publishers aggregate at once
MC_HARNESS(c05_two_publishers, 0, 0, 0)
{
    world w;
    auto x = w.r.counter<int64_t>(w.p, 1, w.a);
    auto y = w.r.counter<int64_t>(w.p, 20, w.b);
    w.find();
    int64_t u = 0, v = 0;
    mc::parallel([&] { u = w.aggregate(); }, [&] { v = w.aggregate(); }, [&] { *x += 1; });
    MC_CHECK((u == 21 || u == 22) && (v == 21 || v == 22) && w.aggregate() == 22, "aggregates %lld %lld", (long long)u, (long long)v);
}
// the container of the tag sets grows meanwhile
MC_HARNESS(c05_growing, 0, 0, 0)
{
    world w;
    int kind = mc::choose(2);
    auto add = [&](int i, int v)
    {
        tag_collection t({ { "k", i } });
        if (kind == 0) w.r.counter<int64_t>(w.p, int64_t(v), t);
        else w.r.gauge<int64_t, gauges::aggregation_sum>(w.p, int64_t(v), t);
    };
    for (int i = 0; i < 13; ++i) add(i, 1 << i);
    w.find();
    int64_t v = 0;
    mc::parallel([&] { add(13, 1 << 13); }, [&] { v = w.aggregate(); });
    MC_CHECK(v == (1 << 13) - 1 || v == (1 << 14) - 1, "the sum of the powers of two is %lld", (long long)v);
    mc::outcome(std::to_string(v));
}

MC_MAIN()
