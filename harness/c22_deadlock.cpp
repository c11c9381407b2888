// C22: every combination of registry, visiting and publishing operations terminates in every schedule, and what they lock is
// unlocked when something throws. All schedules; a state in which nobody can go on is a deadlock.
#include <mc.hpp>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "pub.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
using namespace cxxmetrics;

namespace
{
struct extra : basic_publish_options { int v; extra(int v = 0) : v(v) { } };
struct failing : basic_publish_options { failing() { throw std::runtime_error("no data"); } };
struct oops { };

struct world
{
    metrics_registry<> r;
    open_publisher<> p;
    metric_path a, b;
    tag_collection t1, t2;
    basic_registered_metric *ma = nullptr, *mb = nullptr;

    world() : p(r), a("a"), b("b"), t1({ { "k", 1 } }), t2({ { "k", 2 } })
    {
        *r.counter<int>(a, t1) += 3;
        *r.counter<int>(b, t1) += 4;
        auto get = [this](const metric_path& n, basic_registered_metric& m) { (n == a ? ma : mb) = &m; };
        r.visit_registered_metrics(get);
    }

    static constexpr int operations = 17;
    // everything that users and publishers may do at any time. other: which of the two metrics comes first
    void run(int op, bool other)
    {
        const metric_path &x = other ? b : a, &y = other ? a : b;
        basic_registered_metric *mx = other ? mb : ma, *my = other ? ma : mb;
        auto nothing = [](const tag_collection&, const auto&) { };
        switch (op)
        {
        case 0: r.counter<int>(x, t1); break;                                  // look up
        case 1: r.counter<int>(x, t2); break;                                  // register tags
        case 2: r.counter<int>(metric_path("c"), t1); break;                   // register a name
        case 3: { auto h = [&](const metric_path&, basic_registered_metric& m) { m.visit(nothing); }; r.visit_registered_metrics(h); break; }
        case 4: { auto h = [&](const metric_path&, basic_registered_metric& m) { m.aggregate([](const auto&) { }); }; r.visit_registered_metrics(h); break; }
        // in a visit: data, options, other metrics and new metrics of its own
        case 5: { auto h = [&](const metric_path&, basic_registered_metric& m) { p.get_data_for<extra>(m, 1); p.has_data_for<extra>(m); p.effective_options(m); p.get_data<extra>(2); }; r.visit_registered_metrics(h); break; }
        case 6: mx->visit([&](const tag_collection&, const auto&) { p.get_data_for<extra>(*mx, 1); p.effective_options(*mx); p.get_data_for<extra>(*my, 1); }); break;
        case 7: mx->aggregate([&](const auto&) { p.get_data_for<extra>(*mx, 1); p.effective_options(*my); p.get_data<extra>(2); }); break;
        case 8: p.visit_one(x, [&](const metric_path&, basic_registered_metric& m) { m.visit(nothing); m.aggregate([](const auto&) { }); }); break;
        case 9: r.publish_options(x, cxxmetrics::publish_options(value_publish_options(scale_factor(2.0)))); break;
        case 10: r.publish_options(cxxmetrics::publish_options(value_publish_options(scale_factor(3.0)))); break;
        case 11: p.get_data_for<extra>(x, 1); p.has_data_for<extra>(y); p.has_metric(x); p.metric_type(y); break;
        // failures
        case 12: try { r.gauge<double>(x, 1.0, t1); mc::fail("a counter was found as a gauge"); } catch (const metric_type_mismatch&) { } break;
        case 13: { auto h = [&](const metric_path&, basic_registered_metric& m) { m.visit([](const tag_collection&, const auto&) { throw oops(); }); }; try { r.visit_registered_metrics(h); mc::fail("an exception got lost"); } catch (const oops&) { } break; }
        case 14: try { mx->aggregate([](const auto&) { throw oops(); }); mc::fail("an exception got lost"); } catch (const oops&) { } break;
        case 15: try { p.get_data_for<failing>(*mx); mc::fail("an exception got lost"); } catch (const std::runtime_error&) { }
                 try { p.get_data<failing>(); mc::fail("an exception got lost"); } catch (const std::runtime_error&) { } break;
        // an aggregate is handed over when everything is done: its handler may use the metric
        case 16: mx->aggregate([&](const auto&) { mx->visit(nothing); r.counter<int>(x, t2); }); break;
        }
    }
    // everything still works: nothing is locked
    void after()
    {
        for (int op = 0; op < operations; ++op) run(op, op & 1);
        MC_CHECK(*r.counter<int>(a, t1) == 3 && *r.counter<int>(b, t1) == 4, "values changed");
    }
};
}

// pairs of operations: the data of options may race with their use (see DESIGN.md), which isn't the subject here
MC_HARNESS(c22_pairs_same, mc::F_NO_RACE, 0, 0)
{
    world w;
    int x = mc::choose(world::operations), y = mc::choose(world::operations - x) + x;
    mc::parallel([&] { w.run(x, false); }, [&] { w.run(y, false); });
    w.after();
}
MC_HARNESS(c22_pairs_other, mc::F_NO_RACE, 0, 0)
{
    world w;
    int x = mc::choose(world::operations), y = mc::choose(world::operations);
    mc::parallel([&] { w.run(x, false); }, [&] { w.run(y, true); });
    w.after();
}
MC_HARNESS(c22_three, mc::F_NO_RACE, 0, 0)
{
    world w;
    int x = mc::choose(mc::thorough() ? 9 : 5), y = mc::choose(9), z = 3 + mc::choose(6);
    mc::parallel([&] { w.run(x, false); }, [&] { w.run(y, true); }, [&] { w.run(z, false); });
    w.after();
}
MC_HARNESS(c22_three_fail, mc::F_NO_RACE, 0, 0)
{
    world w;
    int x = 12 + mc::choose(5), y = mc::choose(world::operations), z = 1 + mc::choose(4);
    mc::parallel([&] { w.run(x, false); }, [&] { w.run(y, true); }, [&] { w.run(z, false); });
    w.after();
}
MC_HARNESS(c22_three_all, mc::F_NO_RACE | mc::F_THOROUGH, 0, 0)
{
    world w;
    int x = mc::choose(world::operations), y = mc::choose(world::operations), z = mc::choose(world::operations);
    mc::parallel([&] { w.run(x, false); }, [&] { w.run(y, true); }, [&] { w.run(z, false); });
    w.after();
}
MC_HARNESS(c22_sequences, mc::F_NO_RACE, 0, 0)
{
    world w;
    int x1 = mc::choose(world::operations), x2 = mc::thorough() ? mc::choose(world::operations) : 1 + 2 * mc::choose(4), y1 = mc::choose(world::operations), y2 = mc::thorough() ? 3 + mc::choose(6) : 4;
    mc::parallel([&] { w.run(x1, false); w.run(x2, true); }, [&] { w.run(y1, true); w.run(y2, false); });
    w.after();
}
// publishing against everything
MC_HARNESS(c22_publish, mc::F_NO_RACE, 0, 0)
{
    world w;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> pub(w.r);
    int x = mc::choose(world::operations);
    mc::parallel([&] { w.run(x, false); }, [&] { std::ostringstream o; pub.write(o); mc::quiet q; MC_CHECK(o.str().find("a{") != std::string::npos, "%s", o.str().c_str()); });
    std::ostringstream o;
    pub.write(o);
    w.after();
}
MC_HARNESS(c22_publishers, mc::F_NO_RACE, 0, 0)
{
    world w;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p1(w.r), p2(w.r);
    mc::parallel([&] { std::ostringstream o; p1.write(o); }, [&] { std::ostringstream o; p2.write(o); });
    w.after();
}
MC_MAIN()
