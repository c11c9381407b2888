// Reads the samples of a reservoir snapshot through its public interface: the quantile at rank k/(n+1)
// is the k-th smallest sample.
#ifndef SNAP_HPP
#define SNAP_HPP
#include <cxxmetrics/snapshots.hpp>
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>
#include <utility>

namespace snap
{
using rs = cxxmetrics::reservoir_snapshot;

template<std::size_t N, std::size_t K>
long double kth(const rs& s)
{
    return static_cast<long double>(s.template value<static_cast<cxxmetrics::quantile::value>(cxxmetrics::quantile(100.0L * K / (N + 1)))>());
}

template<std::size_t N, std::size_t... K>
std::vector<long double> all(const rs& s, std::index_sequence<K...>)
{
    return { kth<N, K + 1>(s)... };
}

template<std::size_t N>
struct reader
{
    static std::vector<long double> get(const rs& s)
    {
        if (s.size() == N) return all<N>(s, std::make_index_sequence<N>());
        return reader<N - 1>::get(s);
    }
};
template<>
struct reader<0> { static std::vector<long double> get(const rs&) { return {}; } };

// samples of a snapshot of at most 12 integral samples, sorted
inline std::vector<long long> ints(const rs& s)
{
    std::vector<long long> r;
    if (s.size() > 12) return { -77777, (long long)s.size() };
    for (auto v : reader<12>::get(s)) r.push_back(std::llround(v));
    return r;
}

template<std::size_t... K>
inline std::vector<long double> percentiles(const rs& s, std::index_sequence<K...>)
{
    return { static_cast<long double>(s.template value<static_cast<cxxmetrics::quantile::value>(cxxmetrics::quantile(100.0L * (K + 1) / (sizeof...(K) + 1)))>())... };
}

// what is wrong with a snapshot of these (sorted) values: size, minimum, maximum, mean and 126 percentiles
inline std::string wrong(const rs& s, const std::vector<long long>& v)
{
    auto n = v.size();
    if (s.size() != n) return "size " + std::to_string(s.size()) + " instead of " + std::to_string(n);
    if (!n) return "";
    auto ld = [](const cxxmetrics::metric_value& x) { return static_cast<long double>(x); };
    if (ld(s.min()) != v.front() || ld(s.max()) != v.back()) return "minimum " + std::to_string(ld(s.min())) + ", maximum " + std::to_string(ld(s.max())) + " instead of " + std::to_string(v.front()) + ", " + std::to_string(v.back());
    long double sum = 0, scale = std::max(std::fabs((long double)v.front()), std::fabs((long double)v.back())) + 1;
    for (auto x : v) sum += x;
    if (std::fabs(ld(s.mean()) - sum / n) > 1e-12L * scale) return "mean " + std::to_string(ld(s.mean())) + " instead of " + std::to_string(sum / n);
    constexpr std::size_t Q = 126;
    auto q = percentiles(s, std::make_index_sequence<Q>());
    for (std::size_t i = 0; i < Q; ++i)
    {
        long double pos = (long double)(i + 1) / (Q + 1) * (n + 1), want;
        std::size_t at = (std::size_t)pos;
        want = at < 1 ? v.front() : at >= n ? v.back() : v[at - 1] + (pos - at) * (v[at] - v[at - 1]);
        if (std::fabs(q[i] - want) > 1e-6L * scale) return "percentile " + std::to_string(100.0L * (i + 1) / (Q + 1)) + " is " + std::to_string(q[i]) + " instead of " + std::to_string(want);
    }
    return "";
}

inline std::string str(const std::vector<long long>& v)
{
    std::string r = "{";
    for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "}";
}
}
#endif
