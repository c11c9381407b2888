// C21: values and snapshots have no state that is shared behind the user's back: two threads use the same values as constants, or
// values of their own.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metric_value.hpp>
#include <cxxmetrics/snapshots.hpp>
#include <memory>
#include <vector>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int KINDS = 9;
metric_value make(int k)
{
    switch (k)
    {
        case 0: return metric_value(int64_t(-3));
        case 1: return metric_value(uint64_t(1) << 63);
        case 2: return metric_value(2.5L);
        case 3: return metric_value(std::chrono::nanoseconds(1500));
        case 4: return metric_value(std::string("17"));
        case 5: return metric_value(std::string("-4"));
        case 6: return metric_value(std::string("words that are not a number and longer than sixteen"));
        case 7: return metric_value(std::string());
        default: return metric_value(std::string("12us"));
    }
}
constexpr int OPS = 11;
void use(const metric_value& a, int op)
{
    switch (op)
    {
        case 0: (void)static_cast<int64_t>(a); break;
        case 1: (void)static_cast<uint32_t>(a); break;
        case 2: (void)static_cast<long double>(a); break;
        case 3: (void)static_cast<std::chrono::nanoseconds>(a); break;
        case 4: (void)static_cast<std::string>(a); break;
        case 5: { metric_value c(a); metric_value d(std::move(c)); (void)(d == a); break; }
        case 6: (void)(a + metric_value(2)); break;
        case 7: (void)(a - metric_value(0.5L)); break;
        case 8: (void)(a * metric_value(3)); break;
        case 9: (void)(a / metric_value(4)); break;
        case 10: (void)(a < metric_value(7)); (void)(metric_value(std::string("7")) >= a); break;
    }
}

constexpr int SOPS = 6;
void use(const reservoir_snapshot& s, int op)
{
    switch (op)
    {
        case 0: (void)s.mean(); break;
        case 1: (void)s.value<50_p>(); (void)s.value<99_p>(); break;
        case 2: (void)s.min(); (void)s.max(); break;
        case 3: (void)s.size(); break;
        case 4: s.sample(5, [](const metric_value& v, quantile q) { (void)static_cast<long double>(v); (void)q.percentile(); }); break;
        case 5: (void)s.value<10_p>(); (void)s.value<100_p>(); break;
    }
}
}

// the same value
MC_HARNESS(c21_values_shared, 0, 0, 0)
{
    metric_value v = make(mc::choose(KINDS));
    int a = mc::choose(OPS), b = mc::choose(OPS);
    mc::parallel([&] { use(v, a); }, [&] { use(v, b); });
}
// values of their own
MC_HARNESS(c21_values_own, 0, 0, 0)
{
    int k = mc::choose(KINDS), l = mc::choose(KINDS);
    int a = mc::choose(OPS), b = mc::choose(OPS);
    mc::parallel([&] { use(make(k), a); }, [&] { metric_value v = make(l); use(v, b); v += metric_value(1); });
}
// one snapshot, samples of one kind
MC_HARNESS(c21_snapshot_shared, 0, 0, 0)
{
    int k = mc::choose(4);
    std::vector<long double> f{ 1, 2.5L, 3 };
    std::vector<int> i{ 3, 1, 2 };
    std::vector<std::chrono::nanoseconds> n{ std::chrono::nanoseconds(4), std::chrono::nanoseconds(2) };
    std::vector<std::string> t{ "5", "7", "9" };
    reservoir_snapshot s = k == 0 ? reservoir_snapshot(f.data(), f.size()) : k == 1 ? reservoir_snapshot(i.data(), i.size()) : k == 2 ? reservoir_snapshot(n.data(), n.size()) : reservoir_snapshot(t.begin(), t.end(), t.size());
    int a = mc::choose(SOPS), b = mc::choose(SOPS);
    mc::parallel([&] { use(s, a); }, [&] { use(s, b); });
}
MC_MAIN()
