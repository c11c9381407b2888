// C06: racing first accesses to publisher data agree on one object, all schedules.
#include <mc.hpp>
#include <cstring>
#include "pub.hpp"
using namespace cxxmetrics;

namespace
{
struct data1 : basic_publish_options { int v; data1(int v) : v(v) { } };
struct data2 : basic_publish_options { int v; data2(int v) : v(v) { } };
struct world
{
    metrics_registry<> r;
    open_publisher<> p;
    metric_path a, b;
    basic_registered_metric* m = nullptr;
    world() : p(r), a("a"), b("b")
    {
        r.counter<int>(a);
        p.visit_one(a, [this](const metric_path&, basic_registered_metric& x) { m = &x; });
    }
    template<typename D> D* get(int where, int v) { return where == 0 ? &p.get_data<D>(v) : where == 1 ? p.get_data_for<D>(a, v) : &p.get_data_for<D>(*m, v); }
};
}

MC_HARNESS(c06_racing_data, 0, 0, 0)
{
    world w;
    int how[2] = { 0, 0 };
    if (mc::choose(2)) { how[0] = 1; how[1] = 1 + mc::choose(2); }
    data1 *x = nullptr, *y = nullptr;
    int vx = 0, vy = 0;
    mc::parallel([&] { x = w.get<data1>(how[0], 1); vx = x->v; }, [&] { y = w.get<data1>(how[1], 2); vy = y->v; });
    MC_CHECK(x == y && vx == vy && (vx == 1 || vx == 2), "two objects or values %d %d", vx, vy);
    MC_CHECK(w.get<data1>(how[0], 3) == x && x->v == vx, "another object later");
    mc::outcome(std::to_string(vx));
}

MC_HARNESS(c06_racing_types, 0, 0, 0)
{
    world w;
    int how = mc::choose(3);
    data1* x = nullptr;
    data2* y = nullptr;
    mc::parallel([&] { x = w.get<data1>(how, 1); }, [&] { y = w.get<data2>(how, 2); });
    MC_CHECK(x->v == 1 && y->v == 2 && (void*)x != (void*)y, "values %d %d", x->v, y->v);
    MC_CHECK(w.get<data1>(how, 3) == x && w.get<data2>(how, 4) == y, "other objects later");
}

MC_HARNESS(c06_looking, 0, 0, 0)
{
    world w;
    bool before = false, after = false;
    data1* x = nullptr;
    mc::parallel([&] { x = w.get<data1>(1, 1); }, [&] { before = w.p.has_data_for<data1>(w.a); after = w.p.has_data_for<data1>(*w.m); });
    MC_CHECK(x && x->v == 1, "data %p", (void*)x);
    MC_CHECK(!before || after, "data vanishes");
    MC_CHECK(w.p.has_data_for<data1>(w.a), "data lost");
}

// data of a metric while others are registered and looked up
MC_HARNESS(c06_registering, 0, 0, 0)
{
    world w;
    data1 *x = nullptr, *y = nullptr;
    mc::parallel([&] { x = w.p.get_data_for<data1>(w.b, 1); }, [&] { w.r.counter<int>(w.b); y = w.p.get_data_for<data1>(w.b, 2); });
    MC_CHECK(y && (!x || x == y) && y->v == (x ? y->v : 2), "data of a metric registered meanwhile");
    MC_CHECK(w.p.get_data_for<data1>(w.b, 3) == y, "another object later");
}

MC_HARNESS(c06_three, mc::F_THOROUGH, 0, 0)
{
    world w;
    int how = mc::choose(2);
    data1 *x = nullptr, *y = nullptr, *z = nullptr;
    mc::parallel([&] { x = w.get<data1>(how, 1); }, [&] { y = w.get<data1>(how, 2); }, [&] { z = w.get<data1>(how, 3); });
    MC_CHECK(x == y && y == z && x->v >= 1 && x->v <= 3, "several objects");
}
MC_MAIN()
