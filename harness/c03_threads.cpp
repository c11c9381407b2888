// C03: threads race to bind one name to different metric types, all schedules.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;

namespace
{
constexpr period::value S1 = period::value(time::seconds(1)), M1 = period::value(time::minutes(1)), M5 = period::value(time::minutes(5));
using reg = metrics_registry<>;
using any = std::shared_ptr<internal::metric>;
enum { KINDS = 5, ADD = 5, OPS = 8 };
// the metric types: counter, gauge, sum gauge, meter (two listings of its windows)
int type_of(int op) { return op == 4 ? 3 : op >= ADD ? op - ADD : op; }
struct on
{
static any lookup(reg& r, int k)
{
    switch (k)
    {
        case 0: return r.counter<int64_t>("m", int64_t(3));
        case 1: return r.gauge<int>("m", 3);
        case 2: return r.gauge<int, gauges::aggregation_sum>("m", 3);
        case 3: return r.meter<S1, M1, M5>("m");
        default: return r.meter<S1, M5, M1>("m");
    }
}
static bool add(reg& r, int k)
{
    switch (k)
    {
        case 0: return r.register_existing("m", std::make_shared<counter<int64_t>>(7));
        case 1: return r.register_existing("m", std::make_shared<gauge<int>>(7));
        default: return r.register_existing("m", std::make_shared<gauge<int, gauges::aggregation_sum>>(7));
    }
}
};
std::string name_of(int type)
{
    switch (type)
    {
        case 0: return counter<int64_t>().metric_type();
        case 1: return gauge<int>().metric_type();
        case 2: return gauge<int, gauges::aggregation_sum>().metric_type();
        default: return meter<S1, M1, M5>().metric_type();
    }
}

struct result { int op; bool threw = false, added = false; any p; std::string existing, desired; };

void race(std::initializer_list<std::initializer_list<int>> threads)
{
    reg r;
    result res[6];
    int n = 0;
    auto run = [&](std::initializer_list<int> ops)
    {
        for (int op : ops)
        {
            result* me;
            { mc::quiet q; me = &res[n++]; me->op = op; }
            try
            {
                if (op >= ADD) { bool a = on::add(r, op - ADD); mc::quiet q; me->added = a; }
                else { any p = on::lookup(r, op); mc::quiet q; me->p = p; }
            }
            catch (const metric_type_mismatch& e)
            {
                mc::quiet q;
                me->threw = true;
                me->existing = e.existing_metric_type();
                me->desired = e.desired_metric_type();
            }
        }
    };
    const std::initializer_list<int>* t = threads.begin();
    auto a = [&] { run(t[0]); };
    auto b = [&] { run(t[1]); };
    if (threads.size() == 3) mc::parallel(a, b, [&] { run(t[2]); });
    else mc::parallel(a, b);
    int bound = -1, children = 0;
    auto handler = [&](const metric_path&, basic_registered_metric& m)
    {
        for (int k = 0; k < 4; ++k) if (m.type() == name_of(k)) bound = k;
        m.visit([&](const tag_collection&, const auto&) { ++children; });
    };
    r.visit_registered_metrics(handler);
    MC_CHECK(bound >= 0 && children == 1, "bound to type %d with %d metrics", bound, children);
    any first;
    int added = 0;
    for (int i = 0; i < n; ++i)
    {
        bool fits = type_of(res[i].op) == bound;
        MC_CHECK(res[i].threw == !fits, "operation %d on a name bound to type %d %s", res[i].op, bound, res[i].threw ? "threw" : "did not throw");
        if (res[i].threw) MC_CHECK(res[i].existing == name_of(bound) && res[i].desired == name_of(type_of(res[i].op)), "mismatch names %s and %s", res[i].existing.c_str(), res[i].desired.c_str());
        else if (res[i].p) { MC_CHECK(!first || first == res[i].p, "two metrics"); first = res[i].p; }
        added += res[i].added;
    }
    MC_CHECK(added <= 1, "%d registrations succeeded", added);
    any now = on::lookup(r, bound);
    MC_CHECK(!first || first == now, "another metric afterwards");
    mc::outcome(std::to_string(bound) + "/" + std::to_string(added));
}
}

MC_HARNESS(c03_race_pairs, 0, 0, 0) { int a = mc::choose(OPS), b = mc::choose(OPS); race({ { a }, { b } }); }
MC_HARNESS(c03_race_twice, 0, 0, 0) { int a = mc::choose(3), b = mc::choose(3), c = mc::choose(3); race({ { a, b }, { c } }); }
MC_HARNESS(c03_race_three, 0, 0, 0) { race({ { 0 }, { 1 }, { 2 } }); }
MC_HARNESS(c03_race_three_meters, 0, 0, 0) { race({ { 3 }, { 4 }, { 0 } }); }
MC_HARNESS(c03_race_three_add, mc::F_PB, 3, 0) { int a = mc::choose(3), b = mc::choose(3); race({ { a }, { ADD + b }, { ADD } }); }
MC_HARNESS(c03_race_four_ops, mc::F_PB | mc::F_THOROUGH, 3, 0) { int a = mc::choose(OPS), b = mc::choose(OPS), c = mc::choose(OPS), d = mc::choose(3); race({ { a, b }, { c, d } }); }
MC_MAIN()
