// @engine seq
// C11, one thread: counts and samples for all histories of updates, snapshots and clock advances.
#include "rng_control.hpp"
#include <seq.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/metrics_registry.hpp>
#include "snap.hpp"
#include <algorithm>
#include <set>
using namespace cxxmetrics;

namespace
{
template<typename T, typename R>
void histories(histogram<T, R>& h, size_t cap, int kind, int depth);

// kind: 0 most recent, 1 uniform, 2 sliding window of 10ns
template<typename T, typename R>
void histories(R&& reservoir, size_t cap, int kind, int depth)
{
    histogram<T, R> h(std::move(reservoir));
    histories<T, R>(h, cap, kind, depth);
}
template<typename T, typename R>
void histories(histogram<T, R>& h, size_t cap, int kind, int depth)
{
    struct rec { long long v; int64_t t; };
    std::vector<rec> all;
    static const long long values[] = { 3, 1, 7 };
    for (int d = 0; d < depth; ++d)
    {
        int k = seq::choose(kind == 2 ? 5 : 4);
        seq::op();
        if (k < 3) { seq::log("update(%lld)", values[k]); h.update(T(values[k])); all.push_back({ values[k], seq::now() }); }
        else if (k == 4) { static const int64_t by[] = { 4, 11 }; auto b = seq::pick(by); seq::log("advance %lld", (long long)b); seq::advance(b); }
        else
        {
            seq::log("snapshot");
            const auto& c = h;
            auto s = c.snapshot();
            SEQ_CHECK(s.count() == all.size() && c.count() == all.size(), "after %zu updates: the snapshot counts %llu, count() %llu", all.size(), (unsigned long long)s.count(), (unsigned long long)c.count());
            auto got = snap::ints(s);
            std::vector<long long> recent, everything;
            for (size_t i = 0; i < all.size(); ++i)
            {
                everything.push_back(all[i].v);
                if (i + cap >= all.size() && (kind != 2 || seq::now() - all[i].t <= 10)) recent.push_back(all[i].v);
            }
            std::sort(recent.begin(), recent.end());
            std::sort(everything.begin(), everything.end());
            if (kind == 1)
            {
                SEQ_CHECK(got.size() == std::min(cap, all.size()), "%zu samples after %zu updates", got.size(), all.size());
                SEQ_CHECK(std::includes(everything.begin(), everything.end(), got.begin(), got.end()), "samples %s of the values %s", snap::str(got).c_str(), snap::str(everything).c_str());
                SEQ_CHECK(all.empty() || std::count(got.begin(), got.end(), all.back().v), "the latest value %lld is missing from %s", all.back().v, snap::str(got).c_str());
            }
            else SEQ_CHECK(got == recent, "samples %s, expected %s", snap::str(got).c_str(), snap::str(recent).c_str());
        }
    }
    SEQ_CHECK(h.count() == all.size() && h.snapshot().count() == all.size(), "finally %llu of %zu updates counted", (unsigned long long)h.count(), all.size());
}

struct session
{
    static uint_fast32_t draw() { return rngc::at(2 * seq::choose(3) + 1, 6); }
    session() { rngc::source() = &draw; }
    ~session() { rngc::source() = nullptr; }
};
int depth() { return seq::thorough() ? 9 : 7; }
}

SEQ_HARNESS(c11_seq_simple) { histories<int64_t>(simple_reservoir<int64_t, 2>(), 2, 0, depth()); }
SEQ_HARNESS(c11_seq_simple3) { histories<double>(simple_reservoir<double, 3>(), 3, 0, depth()); }
SEQ_HARNESS(c11_seq_uniform) { session s; histories<int64_t>(uniform_reservoir<int64_t, 2>(), 2, 1, depth() - 1); }
SEQ_HARNESS(c11_seq_sliding) { histories<int64_t>(sliding_window_reservoir<int64_t, 2>(std::chrono::nanoseconds(10)), 2, 2, depth()); }

// a registry hands the reservoir to the histogram it makes
SEQ_HARNESS(c11_seq_registered)
{
    using R = sliding_window_reservoir<int64_t, 2>;
    metrics_registry<> r;
    auto h = r.histogram("h", R(std::chrono::nanoseconds(10)), { { "a", 1 } });
    SEQ_CHECK((&*r.histogram("h", R(std::chrono::nanoseconds(3)), { { "a", 1 } }) == &*h), "another histogram");
    histories<int64_t, R>(*h, 2, 2, depth() - 2);
}

// the count goes on when the reservoir has long been full
SEQ_HARNESS(c11_seq_many)
{
    static const unsigned n[] = { 0, 1, 1023, 1024, 1025, 2048, 2049, 5000, 32768, 65535, 65536, 65537, 100000 };
    histogram<int64_t> h;
    auto k = seq::pick(n);
    for (unsigned i = 0; i < k; ++i) { h.update(i + 1); seq::op(); }
    auto s = h.snapshot();
    SEQ_CHECK(h.count() == k && s.count() == k && s.size() == std::min(k, 1024u), "after %u updates: count %llu, snapshot %llu with %zu samples", k, (unsigned long long)h.count(), (unsigned long long)s.count(), s.size());
}
SEQ_HARNESS(c11_seq_empty)
{
    histogram<int64_t, simple_reservoir<int64_t, 4>> h;
    auto s = h.snapshot();
    SEQ_CHECK(h.count() == 0 && s.count() == 0 && s.size() == 0, "an empty histogram counts %llu", (unsigned long long)s.count());
}
