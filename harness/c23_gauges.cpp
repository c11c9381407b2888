// @engine seq
// C23: every kind of gauge reports what it is bound to, through sets, referent changes, copies, moves and assignments.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <list>
#include <vector>
using namespace cxxmetrics;
using gauges::gauge_aggregation_type;
using gauges::aggregation_sum;
using gauges::aggregation_average;

namespace
{
// what a gauge shows in all ways of reading it; calls counts invocations of the function of function gauges
int calls;
template<typename G, typename T>
void shows(G& g, T want, const char* who, int per_read)
{
    const G& c = g;
    int before = calls;
    T a = g.get(), b = c.get();
    SEQ_CHECK(a == want && b == want, "%s reports %s and %s (const), expected %s", who, static_cast<std::string>(metric_value(a)).c_str(), static_cast<std::string>(metric_value(b)).c_str(), static_cast<std::string>(metric_value(want)).c_str());
    SEQ_CHECK(calls - before == 2 * per_read, "two reads of %s made %d calls", who, calls - before);
    before = calls;
    auto s = c.snapshot();
    SEQ_CHECK(calls - before == per_read, "a snapshot of %s made %d calls", who, calls - before);
    SEQ_CHECK(s.value() == metric_value(want) && s == metric_value(want), "snapshot of %s shows %s, expected %s", who, static_cast<std::string>(s.value()).c_str(), static_cast<std::string>(metric_value(want)).c_str());
    SEQ_CHECK(static_cast<std::string>(s.value()) == static_cast<std::string>(metric_value(want)), "snapshot of %s reads %s, expected %s", who, static_cast<std::string>(s.value()).c_str(), static_cast<std::string>(metric_value(want)).c_str());
    seq::op(3);
}

template<typename T> struct values;
template<> struct values<int> { static int at(int i) { return i == 0 ? 0 : i == 1 ? -7 : 2147483647; } };
template<> struct values<int64_t> { static int64_t at(int i) { return i == 0 ? 0 : i == 1 ? int64_t(1) << 40 : -5; } };
template<> struct values<uint8_t> { static uint8_t at(int i) { return i == 0 ? 0 : i == 1 ? 255 : 3; } };
template<> struct values<double> { static double at(int i) { return i == 0 ? 0 : i == 1 ? -2.5 : 1e300; } };
template<> struct values<std::string> { static std::string at(int i) { return i == 0 ? "" : i == 1 ? "text" : std::string(40, 'x'); } };
template<> struct values<std::chrono::milliseconds> { static std::chrono::milliseconds at(int i) { return std::chrono::milliseconds(i * 1500); } };

// a set of one to three gauges and the values they must show
template<typename T, gauge_aggregation_type A>
void value_gauges(int depth)
{
    using G = gauge<T, A>;
    std::list<G> g;
    std::vector<T> m;
    g.emplace_back();
    m.push_back(T());
    g.emplace_back(values<T>::at(2));
    m.push_back(values<T>::at(2));
    auto at = [&](int i) -> G& { auto it = g.begin(); std::advance(it, i); return *it; };
    for (int d = 0; d < depth; ++d)
    {
        int i = seq::choose(2), j = 1 - i, v = seq::choose(3);
        switch (v ? seq::choose(2) : 2 + seq::choose(6))
        {
            case 0: at(i).set(values<T>::at(v)); m[i] = values<T>::at(v); seq::log("set %d to value %d", i, v); break;
            case 1: at(i) = values<T>::at(v); m[i] = values<T>::at(v); seq::log("assign value %d to %d", v, i); break;
            case 2: at(i) = at(j); m[i] = m[j]; seq::log("assign %d to %d", j, i); break;
            case 3: { G c(at(j)); at(i) = std::move(c); m[i] = m[j]; seq::log("move a copy of %d to %d", j, i); break; }
            case 4: { G c(at(i)); at(i).set(values<T>::at(1)); shows(c, m[i], "copy", 0); m[i] = values<T>::at(1); seq::log("copy %d, then change it", i); break; }
            case 5: { G c(at(i)); G d(std::move(c)); d.set(values<T>::at(2)); shows(d, values<T>::at(2), "moved copy", 0); seq::log("move a copy of %d", i); break; }
            case 6: { G c(values<T>::at(1)); c = at(i); c.set(values<T>::at(2)); seq::log("change a copy of %d", i); break; }
            default: { G& self = at(i); self = self; seq::log("self-assign %d", i); break; }
        }
        shows(at(0), m[0], "gauge 0", 0);
        shows(at(1), m[1], "gauge 1", 0);
    }
}

template<typename T, gauge_aggregation_type A, bool Pointer>
struct referring
{
    using G = typename std::conditional<Pointer, gauge<T*, A>, gauge<T&, A>>::type;
    static G make(T* p) { return make(p, std::integral_constant<bool, Pointer>()); }
    static G make(T* p, std::true_type) { return G(p); }
    static G make(T* p, std::false_type) { return G(*p); }

    static void run(int depth)
    {
        T x[2] = { values<T>::at(1), values<T>::at(2) };
        G g[2] = { make(&x[0]), make(&x[1]) };
        int to[2] = { 0, 1 };
        for (int d = 0; d < depth; ++d)
        {
            int i = seq::choose(2), j = 1 - i;
            switch (seq::choose(6))
            {
                case 0: x[i] = values<T>::at(0); seq::log("referent %d = value 0", i); break;
                case 1: x[i] = values<T>::at(1); seq::log("referent %d = value 1", i); break;
                case 2: x[i] = values<T>::at(2); seq::log("referent %d = value 2", i); break;
                case 3: g[i] = g[j]; to[i] = to[j]; seq::log("assign gauge %d to %d", j, i); break;
                case 4: { G c(g[i]); x[to[i]] = values<T>::at(2); shows(c, x[to[i]], "copy", 0); seq::log("copy gauge %d and change its referent", i); break; }
                default: { G c(g[j]); c = g[i]; G e(std::move(c)); x[to[i]] = values<T>::at(1); shows(e, x[to[i]], "moved copy", 0); seq::log("assign gauge %d to a copy of %d", i, j); break; }
            }
            shows(g[0], x[to[0]], "gauge 0", 0);
            shows(g[1], x[to[1]], "gauge 1", 0);
        }
    }
};

template<typename T, gauge_aggregation_type A>
void functions(int depth)
{
    using F = std::function<T()>;
    using G = gauge<F, A>;
    T x[2] = { values<T>::at(1), values<T>::at(2) };
    calls = 0;
    F f[2] = { [&x] { ++calls; return x[0]; }, [&x] { ++calls; return x[1]; } };
    G g[2] = { G(f[0]), G(F(f[1])) };
    int to[2] = { 0, 1 };
    for (int d = 0; d < depth; ++d)
    {
        int i = seq::choose(2), j = 1 - i;
        switch (seq::choose(6))
        {
            case 0: x[i] = values<T>::at(0); break;
            case 1: x[i] = values<T>::at(1); break;
            case 2: g[i] = g[j]; to[i] = to[j]; break;
            case 3: { G c(g[j]); g[i] = std::move(c); to[i] = to[j]; break; }
            case 4: { G c(g[i]); G e(std::move(c)); shows(e, x[to[i]], "moved copy", 1); break; }
            default: { G c(g[j]); c = g[i]; shows(c, x[to[i]], "assigned copy", 1); break; }
        }
        shows(g[0], x[to[0]], "gauge 0", 1);
        shows(g[1], x[to[1]], "gauge 1", 1);
    }
}

// how the tag sets of one gauge combine
struct gauge_values { double v[4]; std::function<double()> f(int i) { return [this, i] { return v[i]; }; } };

template<gauge_aggregation_type A>
void combine(int kind)
{
    static const double vals[] = { 0, 1.5, -4, 1e9 };
    static gauge_values x;
    metrics_registry<> r;
    int n = 1 + seq::choose(3);
    double sum = 0;
    for (int i = 0; i < n; ++i)
    {
        x.v[i] = seq::pick(vals);
        sum += x.v[i];
        tag_collection t({ { "i", i } });
        switch (kind)
        {
            case 0: r.gauge<double, A>("g", double(x.v[i]), t); break;
            case 1: r.gauge<std::function<double()>, A>("g", x.f(i), t); break;
            case 2: r.gauge<double*, A>("g", &x.v[i], t); break;
            case 3: r.gauge<double&, A>("g", x.v[i], t); break;
            case 4:
            {
                // copies combine as the original
                gauge<double*, A> a(&x.v[i]), b(a);
                r.register_existing("g", std::make_shared<gauge<double*, A>>(b), t);
                break;
            }
            default:
            {
                gauge<std::function<double()>, A> a(x.f(i)), b(std::move(a));
                r.register_existing("g", std::make_shared<gauge<std::function<double()>, A>>(b), t);
                break;
            }
        }
    }
    double want = A == aggregation_sum ? sum : sum / n, scale = 1;
    for (int i = 0; i < n; ++i) scale = std::max(scale, std::abs(x.v[i]));
    int seen = 0;
    auto handler = [&](const metric_path&, basic_registered_metric& m)
    {
        m.aggregate([&](const value_snapshot& s)
        {
            ++seen;
            double got = static_cast<double>(s.value());
            SEQ_CHECK(std::abs(got - want) <= 1e-12 * scale, "%s of %d gauges is %.17g, expected %.17g", A == aggregation_sum ? "sum" : "average", n, got, want);
        });
    };
    r.visit_registered_metrics(handler);
    SEQ_CHECK(seen == 1, "%d aggregates", seen);
}
}

const int D = 4;
int depth(int extra = 0) { return D + extra + seq::thorough(); }
SEQ_HARNESS(c23_int) { value_gauges<int, aggregation_average>(depth()); }
SEQ_HARNESS(c23_int_sum) { value_gauges<int, aggregation_sum>(depth()); }
SEQ_HARNESS(c23_int64) { value_gauges<int64_t, aggregation_average>(depth()); }
SEQ_HARNESS(c23_uint8) { value_gauges<uint8_t, aggregation_sum>(depth()); }
SEQ_HARNESS(c23_double) { value_gauges<double, aggregation_average>(depth()); }
SEQ_HARNESS(c23_string) { value_gauges<std::string, aggregation_average>(depth()); }
SEQ_HARNESS(c23_duration) { value_gauges<std::chrono::milliseconds, aggregation_sum>(depth()); }
SEQ_HARNESS(c23_pointer_int) { referring<int, aggregation_average, true>::run(depth(1)); }
SEQ_HARNESS(c23_pointer_double_sum) { referring<double, aggregation_sum, true>::run(depth(1)); }
SEQ_HARNESS(c23_reference_int) { referring<int, aggregation_average, false>::run(depth(1)); }
SEQ_HARNESS(c23_reference_string_sum) { referring<std::string, aggregation_sum, false>::run(depth(1)); }
SEQ_HARNESS(c23_function_int) { functions<int, aggregation_average>(depth(1)); }
SEQ_HARNESS(c23_function_double_sum) { functions<double, aggregation_sum>(depth(1)); }
SEQ_HARNESS(c23_function_string) { functions<std::string, aggregation_average>(depth(1)); }
SEQ_HARNESS(c23_sums) { combine<aggregation_sum>(seq::choose(6)); }
SEQ_HARNESS(c23_averages) { combine<aggregation_average>(seq::choose(6)); }
