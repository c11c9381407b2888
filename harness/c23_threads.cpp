// C23: value gauges set and read by several threads behave like one atomic register.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/gauge.hpp>
#include <chrono>
using namespace cxxmetrics;

namespace
{
enum { SET, ASSIGN, GET, CGET, SNAP };
const char* names[] = { "set", "=", "get", "const get", "snapshot" };

template<typename T> T make(long v) { return T(v); }
template<> std::chrono::milliseconds make<std::chrono::milliseconds>(long v) { return std::chrono::milliseconds(v); }
template<typename T> long number(T v) { return (long)v; }
long number(std::chrono::milliseconds v) { return v.count(); }
template<typename T> T from(const metric_value& v) { return static_cast<T>(v); }
template<> std::chrono::milliseconds from<std::chrono::milliseconds>(const metric_value& v) { std::chrono::milliseconds d = v; return d; }

template<typename T, gauges::gauge_aggregation_type A>
void program(int n, int k, std::initializer_list<int> kinds = { SET, ASSIGN, GET, CGET, SNAP })
{
    static const long args[] = { 5, -3, 70, 11, 1L << 20, 2 };
    gauge<T, A> g(make<T>(9));
    mc::history<12> h;
    int ops[3][2];
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) ops[i][j] = kinds.begin()[mc::choose((int)kinds.size())];
    auto th = [&](int i)
    {
        for (int j = 0; j < k; ++j)
        {
            long arg = args[2 * i + j], ret = 0;
            auto* o = h.begin(ops[i][j], arg);
            switch (ops[i][j])
            {
                case SET: g.set(make<T>(arg)); break;
                case ASSIGN: g = make<T>(arg); break;
                case GET: ret = number(g.get()); break;
                case CGET: ret = number(const_cast<const gauge<T, A>&>(g).get()); break;
                default: { auto s = g.snapshot(); mc::quiet q; ret = number(from<T>(s.value())); }
            }
            h.end(o, ret);
        }
    };
    if (n == 2) mc::parallel([&] { th(0); }, [&] { th(1); });
    else mc::parallel([&] { th(0); }, [&] { th(1); }, [&] { th(2); });
    long fin = number(g.get());
    mc::quiet q;
    auto* o = &h.ops[h.n++];
    o->code = GET; o->ret = fin; o->call = mc::mc_tick(); o->done = mc::mc_tick();
    if (mc::linearizable(h.ops, h.n, 9L, [](long& s, const mc::op_rec& r) { if (r.code <= ASSIGN) { s = r.arg; return true; } return r.ret == s; })) return;
    std::string d;
    for (int i = 0; i < h.n; ++i) d += " [t" + std::to_string(h.ops[i].thread) + " " + names[h.ops[i].code] + "(" + std::to_string(h.ops[i].arg) + ")=" + std::to_string(h.ops[i].ret) + "]";
    mc::fail("no order of the operations explains the results, starting from 9:%s", d.c_str());
}
}

MC_HARNESS(c23_threads_int, 0, 0, 0) { program<int, gauges::aggregation_average>(2, 2); }
MC_HARNESS(c23_threads_double, 0, 0, 0) { program<double, gauges::aggregation_sum>(2, 2); }
MC_HARNESS(c23_threads_duration, 0, 0, 0) { program<std::chrono::milliseconds, gauges::aggregation_average>(2, 2); }
MC_HARNESS(c23_threads_three, 0, 0, 0) { program<int64_t, gauges::aggregation_sum>(3, 1); }
MC_HARNESS(c23_threads_three_two, 0, 0, 0) { program<int64_t, gauges::aggregation_sum>(3, 2, { SET, GET }); }
MC_MAIN()
