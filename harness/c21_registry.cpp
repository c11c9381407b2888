// C21: no data races between registrations, look-ups, visits, aggregations, publisher data and publishing, in every schedule.
#include <mc.hpp>
#include <iostream>
#include <sstream>
#include "pub.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
struct extra : basic_publish_options { int v; extra(int v = 0) : v(v) { } };

struct world
{
    metrics_registry<> r;
    open_publisher<> p;
    metric_path a, b, c;
    tag_collection t1, t2;
    basic_registered_metric *ma = nullptr;
    std::shared_ptr<counter<int>> ca;

    world() : p(r), a("a"), b("b"), c("c"), t1({ { "k", 1 } }), t2({ { "k", 2 } })
    {
        ca = r.counter<int>(a, t1);
        auto get = [this](const metric_path& n, basic_registered_metric& m) { ma = &m; };
        r.visit_registered_metrics(get);
        r.gauge<int, gauges::aggregation_sum>(b, 3, t1);
    }

    static constexpr int operations = 15;
    void run(int op)
    {
        auto nothing = [](const tag_collection&, const auto&) { };
        switch (op)
        {
        case 0: ++*r.counter<int>(a, t1); break;
        case 1: ++*r.counter<int>(a, t2); break;
        case 2: ++*r.counter<int>(c, t1); break;
        case 3: r.gauge<int, gauges::aggregation_sum>(b, 3, t1)->set(5); break;
        case 4: { auto h = [&](const metric_path&, basic_registered_metric& m) { m.visit(nothing); }; r.visit_registered_metrics(h); break; }
        case 5: { auto h = [&](const metric_path&, basic_registered_metric& m) { m.aggregate([](const auto&) { }); }; r.visit_registered_metrics(h); break; }
        case 6: ma->visit(nothing); break;
        case 7: ma->aggregate([](const auto&) { }); break;
        case 8: p.get_data_for<extra>(*ma, 1); p.has_data_for<extra>(*ma); break;
        case 9: p.get_data<extra>(2); p.has_data_for<extra>(a); p.has_metric(c); p.metric_type(a); break;
        case 10: p.effective_options(*ma); r.publish_options(); break;
        case 11: r.register_existing(c, ca, t2); break;
        case 12: try { r.meter<1_sec, 5_sec>(a, t1); } catch (const metric_type_mismatch& e) { e.existing_metric_type(); } break;
        case 13: { auto h = r.histogram(c / "h"_m, simple_reservoir<int, 2>(), t1); h->update(3); break; }
        case 14: *ca += 3; break;
        }
    }
};
}
// a world in which one more name, tag set or kind of data makes the containers grow
namespace
{
template<int N> struct data : basic_publish_options { int v = N; };
struct filler { template<size_t... N> static void fill(open_publisher<>& p, basic_registered_metric& m, std::index_sequence<N...>)
{
    int x[] = { (p.get_data_for<data<N>>(m), p.get_data<data<N>>(), 0)... };
    (void)x;
} };
struct crowd : world
{
    crowd()
    {
        for (int i = 0; i < 11; ++i) r.counter<int>(metric_path("x") / std::to_string(i), t1);
        for (int i = 0; i < 12; ++i) r.counter<int>(a, tag_collection({ { "i", i } }));
        filler::fill(p, *ma, std::make_index_sequence<13>());
    }
};
}
MC_HARNESS(c21_registry_growth, 0, 0, 0)
{
    crowd w;
    static const int growing[] = { 1, 2, 8, 9, 11 };
    int x = growing[mc::choose(5)], y = mc::choose(world::operations);
    mc::parallel([&] { w.run(x); }, [&] { w.run(y); });
}
MC_HARNESS(c21_registry_pairs, 0, 0, 0)
{
    world w;
    int x = mc::choose(world::operations), y = x + mc::choose(world::operations - x);
    mc::parallel([&] { w.run(x); }, [&] { w.run(y); });
}
MC_HARNESS(c21_registry_threes, mc::F_PB, 1, 0)
{
    world w;
    int x = mc::choose(world::operations), y = x + mc::choose(world::operations - x), z = y + mc::choose(world::operations - y);
    mc::parallel([&] { w.run(x); }, [&] { w.run(y); }, [&] { w.run(z); });
}
MC_HARNESS(c21_registry_threes_all, mc::F_THOROUGH, 0, 0)
{
    world w;
    int x = mc::choose(world::operations), y = x + mc::choose(world::operations - x), z = y + mc::choose(world::operations - y);
    mc::parallel([&] { w.run(x); }, [&] { w.run(y); }, [&] { w.run(z); });
}
MC_HARNESS(c21_registry_sequences, mc::F_PB, 2, 0)
{
    world w;
    int x = mc::choose(world::operations), x2 = 4 + mc::choose(4), y = mc::choose(world::operations), y2 = mc::choose(4);
    mc::parallel([&] { w.run(x); w.run(x2); }, [&] { w.run(y); w.run(y2); });
}
MC_HARNESS(c21_publish, 0, 0, 0)
{
    world w;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> pub(w.r);
    int x = mc::choose(world::operations);
    mc::parallel([&] { w.run(x); }, [&] { std::ostringstream o; pub.write(o); });
}
MC_HARNESS(c21_publishers, 0, 0, 0)
{
    world w;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p1(w.r), p2(w.r);
    int both = mc::choose(2);
    mc::parallel([&] { std::ostringstream o; p1.write(o); }, [&] { std::ostringstream o; (both ? p1 : p2).write(o); }, [&] { w.run(1); });
}
// every kind of metric is updated while it is published
namespace
{
template<typename Get, typename Update>
void published(Get get, Update update)
{
    metrics_registry<> r;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> pub(r);
    auto m = get(r, tag_collection());
    auto m2 = get(r, tag_collection({ { "k", 1 } }));
    update(*m);
    if (mc::choose(2)) mc::advance(1000000000ll);
    mc::parallel([&] { update(*m); update(*m2); }, [&] { std::ostringstream o; pub.write(o); });
}
}
MC_HARNESS(c21_published_counter, 0, 0, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.counter<int64_t>(metric_path("m"), t); }, [](auto& m) { ++m; }); }
MC_HARNESS(c21_published_gauge, 0, 0, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.gauge<double>(metric_path("m"), 1.0, t); }, [](auto& m) { m.set(3.5); }); }
MC_HARNESS(c21_published_ewma, mc::F_PB, 2, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.ewma<10_sec>(metric_path("m"), t); }, [](auto& m) { m.mark(3); }); }
MC_HARNESS(c21_published_meter, mc::F_PB, 2, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.meter<1_sec, 5_sec>(metric_path("m"), t); }, [](auto& m) { m.mark(3); }); }
MC_HARNESS(c21_published_histogram, mc::F_PB, 2, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.histogram(metric_path("m"), simple_reservoir<int, 2>(), t); }, [](auto& m) { m.update(3); }); }
MC_HARNESS(c21_published_uniform, mc::F_PB, 2, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.histogram(metric_path("m"), uniform_reservoir<int, 2>(), t); }, [](auto& m) { m.update(3); }); }
MC_HARNESS(c21_published_timer, mc::F_PB, 1, 0) { published([](metrics_registry<>& r, const tag_collection& t) { return r.timer<1_sec, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 2>, 5_sec>(metric_path("m"), simple_reservoir<std::chrono::steady_clock::duration, 2>(), t); }, [](auto& m) { m.update(std::chrono::nanoseconds(7)); }); }
MC_MAIN()
