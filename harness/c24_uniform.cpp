// @engine seq
// C24: copies of uniform reservoirs (and of histograms on them) hold the values of the original, go on as it would (exactly until
// they are full, replacing one value by the new one from then on, whatever is drawn) and are independent.
#include "rng_control.hpp"
#include <seq.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/histogram.hpp>
#include "snap.hpp"
#include <algorithm>
#include <memory>
using namespace cxxmetrics;

namespace
{
using bag = std::vector<long long>;
int at = 0;
uint_fast32_t draw() { return rngc::at(2 * at + 1, 8); }
struct session { session() { rngc::source() = &draw; at = 0; } ~session() { rngc::source() = nullptr; } };

template<size_t N> struct plain
{
    using type = uniform_reservoir<int, N>;
    static constexpr size_t capacity = N;
    static bag look(const type& r, uint64_t) { return snap::ints(r.snapshot()); }
};
template<size_t N> struct counted
{
    using type = histogram<int, uniform_reservoir<int, N>>;
    static constexpr size_t capacity = N;
    static bag look(const type& r, uint64_t total)
    {
        auto s = r.snapshot();
        SEQ_CHECK(r.count() == total && s.count() == total, "the histogram counts %llu (%llu in a snapshot) instead of %llu", (unsigned long long)r.count(), (unsigned long long)s.count(), (unsigned long long)total);
        return snap::ints(s);
    }
};

template<typename K>
struct object
{
    std::unique_ptr<typename K::type> p;
    bag values;
    uint64_t total = 0;
    const char* who;

    explicit object(const char* w) : p(new typename K::type()), who(w) { }
    void check(const char* when)
    {
        auto got = K::look(*p, total);
        SEQ_CHECK(got == values, "%s %s holds %s, expected %s", who, when, snap::str(got).c_str(), snap::str(values).c_str());
    }
    void update(long long v)
    {
        p->update(int(v));
        ++total;
        seq::op();
        auto got = K::look(*p, total);
        if (values.size() < K::capacity)
        {
            values.insert(std::upper_bound(values.begin(), values.end(), v), v);
            SEQ_CHECK(got == values, "%s holds %s after an update with %lld, expected %s", who, snap::str(got).c_str(), v, snap::str(values).c_str());
            return;
        }
        // the new value replaced one of the others
        for (size_t i = 0; i < values.size(); ++i)
        {
            bag c = values;
            c.erase(c.begin() + i);
            c.insert(std::upper_bound(c.begin(), c.end(), v), v);
            if (c == got) { values = c; return; }
        }
        mc_fail(got, v);
    }
    void mc_fail(const bag& got, long long v) { SEQ_CHECK(false, "%s held %s and holds %s after an update with %lld", who, snap::str(values).c_str(), snap::str(got).c_str(), v); }
};

template<typename K>
void copies(int depth)
{
    session s;
    object<K> a("the original"), b("the copy");
    int next = 1;
    auto pa = seq::choose((int)K::capacity + 3), pb = seq::choose((int)K::capacity + 3);
    for (int i = 0; i < pa; ++i) { at = i % 4; a.update(next++); }
    for (int i = 0; i < pb; ++i) { at = 3 - i % 4; b.update(next++); }
    seq::log("%d updates of the original, %d of the copy", pa, pb);
    for (int d = 0; d < depth; ++d)
    {
        int o = seq::choose(d == 0 ? 5 : 9);
        switch (o)
        {
            case 0: seq::log("copy = original"); *b.p = *a.p; b.values = a.values; b.total = a.total; break;
            case 1: seq::log("copy the original"); b.p.reset(new typename K::type(*a.p)); b.values = a.values; b.total = a.total; break;
            case 2: { seq::log("move a copy of the original"); typename K::type t(*a.p); b.p.reset(new typename K::type(std::move(t))); b.values = a.values; b.total = a.total; break; }
            case 3: { seq::log("assign an expiring copy"); typename K::type t(*a.p); *b.p = std::move(t); b.values = a.values; b.total = a.total; break; }
            case 4: { seq::log("assign both to themselves"); auto& x = *a.p; *a.p = x; auto& y = *b.p; *b.p = y; break; }
            default:
                at = seq::choose(2) ? 3 : 0;
                seq::log("update the %s, draw %d", o & 1 ? "original" : "copy", at);
                (o & 1 ? a : b).update(o > 6 ? 0 : next++);
        }
        seq::op();
        a.check("then");
        b.check("then");
    }
}
}
SEQ_HARNESS(c24_uniform_1, seq::F_LEAK) { copies<plain<1>>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c24_uniform_2, seq::F_LEAK) { copies<plain<2>>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c24_uniform_4, seq::F_LEAK) { copies<plain<4>>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c24_uniform_counted_2, seq::F_LEAK) { copies<counted<2>>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c24_uniform_counted_3, seq::F_LEAK) { copies<counted<3>>(seq::thorough() ? 5 : 4); }
