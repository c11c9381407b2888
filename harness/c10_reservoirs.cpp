// C10 (and the reservoir part of C21): concurrent updates and snapshots of reservoirs, all schedules.
#include <mc.hpp>
#include <cstring>
#include <new>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include "snap.hpp"
using namespace cxxmetrics;

namespace
{
// values are small distinct numbers; begun[v] says whether an update with v has been called
struct book
{
    bool begun[40] = {};
    size_t cap;
    explicit book(size_t c) : cap(c) { }
    void begin(int v) { mc::quiet q; begun[v] = true; }
    void check(const reservoir_snapshot& s, const char* when)
    {
        mc::quiet q;
        auto v = snap::ints(s);
        MC_CHECK(v.size() <= cap, "%s: a snapshot of %zu values from a reservoir of capacity %zu", when, v.size(), cap);
        for (size_t i = 0; i < v.size(); ++i)
        {
            MC_CHECK(v[i] > 0 && v[i] < 40 && begun[v[i]], "%s: the snapshot %s contains %lld, which nobody has recorded", when, snap::str(v).c_str(), v[i]);
            MC_CHECK(!i || v[i] != v[i - 1], "%s: the snapshot %s contains %lld twice, it was recorded once", when, snap::str(v).c_str(), v[i]);
        }
    }
    void rest(const reservoir_snapshot& s)
    {
        check(s, "at rest");
        auto v = snap::ints(s);
        std::vector<long long> all;
        for (int i = 1; i < 40; ++i) if (begun[i]) all.push_back(i);
        if (all.size() <= cap) MC_CHECK(v == all, "at rest: recorded %s, the snapshot has %s", snap::str(all).c_str(), snap::str(v).c_str());
        mc::outcome(snap::str(v));
    }
};

template<typename R>
void update(R& r, book& b, int v)
{
    b.begin(v);
    r.update(typename R::value_type(v));
}

template<typename R> void race(R& r, book& b, int wa, int wb, int n);

// an object in memory that holds anything but zeros and values in use
template<typename R>
struct dirty
{
    alignas(R) unsigned char raw[sizeof(R)];
    R* r;
    template<typename... A>
    explicit dirty(A&&... a) { std::memset(raw, 0x6b, sizeof(raw)); r = new (raw) R(std::forward<A>(a)...); }
    ~dirty() { r->~R(); }
};

// pre values, then two writers with a and b updates each against a reader with n snapshots
template<typename R>
void run(size_t cap, int pre, int wa, int wb, int n)
{
    dirty<R> d;
    R& r = *d.r;
    book b(cap);
    for (int i = 1; i <= pre; ++i) update(r, b, i);
    race(r, b, wa, wb, n);
}
template<typename R>
void race(R& r, book& b, int wa, int wb, int n)
{
    auto w1 = [&] { for (int i = 0; i < wa; ++i) update(r, b, 10 + i); };
    auto w2 = [&] { for (int i = 0; i < wb; ++i) update(r, b, 20 + i); };
    auto rd = [&] { for (int i = 0; i < n; ++i) { auto s = r.snapshot(); b.check(s, "while updating"); } };
    if (wb && n) mc::parallel(w1, w2, rd);
    else if (n) mc::parallel(w1, rd);
    else mc::parallel(w1, w2);
    b.rest(r.snapshot());
}

// the reservoir has a past: it was assigned over, or is a copy
template<typename R>
void assigned(size_t cap, int wa, int wb, int n)
{
    int old = mc::choose(2) ? cap + 1 : 1, pre = mc::choose(cap + 1);
    R src;
    book b(cap);
    for (int i = 1; i <= pre; ++i) update(src, b, i);
    if (mc::choose(2))
    {
        dirty<R> d(static_cast<const R&>(src));
        race(*d.r, b, wa, wb, n);
        return;
    }
    dirty<R> d;
    for (int i = 0; i < old; ++i) d.r->update(typename R::value_type(30 + i));
    *d.r = src;
    race(*d.r, b, wa, wb, n);
}
// a copy that's made meanwhile is like a snapshot
template<typename R>
void copied(size_t cap, int pre, int wa, int wb)
{
    dirty<R> d;
    R& r = *d.r;
    book b(cap);
    for (int i = 1; i <= pre; ++i) update(r, b, i);
    int how = mc::choose(2);
    auto rd = [&]
    {
        dirty<R> c;
        if (how)
        {
            dirty<R> e(static_cast<const R&>(r));
            b.check(e.r->snapshot(), "a copy meanwhile");
        }
        else
        {
            c.r->update(typename R::value_type(35));
            *c.r = r;
            b.check(c.r->snapshot(), "assigned meanwhile");
        }
    };
    auto w1 = [&] { for (int i = 0; i < wa; ++i) update(r, b, 10 + i); };
    auto w2 = [&] { for (int i = 0; i < wb; ++i) update(r, b, 20 + i); };
    if (wb) mc::parallel(w1, w2, rd);
    else mc::parallel(w1, rd);
    b.rest(r.snapshot());
}

template<size_t N> using simple = simple_reservoir<int64_t, N>;
template<size_t N> using uniform = uniform_reservoir<int64_t, N>;
template<size_t N> using sliding = sliding_window_reservoir<int64_t, N>;
}

#define FAMILY(kind) \
    MC_HARNESS(c10_##kind##_1w1r, mc::F_LEAK) { int pre = mc::choose(4); run<kind<3>>(3, pre, 2, 0, 1); } \
    MC_HARNESS(c10_##kind##_1w2s, mc::F_LEAK) { int pre = mc::choose(3); run<kind<2>>(2, pre, 1, 0, 2); } \
    MC_HARNESS(c10_##kind##_2w, mc::F_LEAK) { int pre = mc::choose(4); run<kind<3>>(3, pre, 1, 1, 0); } \
    MC_HARNESS(c10_##kind##_2w_fit, mc::F_LEAK) { run<kind<4>>(4, 0, 2, 2, 0); } \
    MC_HARNESS(c10_##kind##_2w_over, mc::F_LEAK) { run<kind<2>>(2, 0, 2, 2, 0); } \
    MC_HARNESS(c10_##kind##_2w1r, mc::F_LEAK) { int pre = mc::choose(4); run<kind<3>>(3, pre, 1, 1, 1); } \
    MC_HARNESS(c10_##kind##_2w1r_4, mc::F_LEAK) { run<kind<4>>(4, 1, 1, 2, 1); } \
    MC_HARNESS(c10_##kind##_assigned, mc::F_LEAK) { assigned<kind<3>>(3, 1, 1, 1); } \
    MC_HARNESS(c10_##kind##_copied, mc::F_LEAK) { int pre = mc::choose(4); copied<kind<3>>(3, pre, 2, 0); } \
    MC_HARNESS(c10_##kind##_copied_2w, mc::F_LEAK) { int pre = mc::choose(3); copied<kind<2>>(2, pre, 1, 1); } \
    MC_HARNESS(c10_##kind##_2w2s, mc::F_LEAK | mc::F_THOROUGH) { int pre = mc::choose(3); run<kind<2>>(2, pre, 1, 1, 2); } \
    MC_HARNESS(c10_##kind##_22w1r, mc::F_LEAK | mc::F_THOROUGH) { int pre = mc::choose(3); run<kind<3>>(3, pre, 2, 2, 1); }

FAMILY(simple)
FAMILY(uniform)
FAMILY(sliding)

// the window excludes nothing that is recorded at the same moment, and a clock that moves tears nothing
MC_HARNESS(c10_sliding_clock, mc::F_LEAK)
{
    sliding_window_reservoir<int64_t, 3> r(std::chrono::nanoseconds(10));
    book b(3);
    mc::parallel(
        [&] { update(r, b, 10); mc::advance(6); update(r, b, 11); },
        [&] { auto s = r.snapshot(); b.check(s, "while updating"); });
    auto v = snap::ints(r.snapshot());
    MC_CHECK(v == (std::vector<long long>{ 10, 11 }), "at rest within the window: %s", snap::str(v).c_str());
    mc::advance(5);
    v = snap::ints(r.snapshot());
    MC_CHECK(v == (std::vector<long long>{ 11 }), "after the window of the first value: %s", snap::str(v).c_str());
}

// torn values would be visible in elements with several parts
MC_HARNESS(c10_wide_values, mc::F_LEAK)
{
    sliding_window_reservoir<int64_t, 2> r;
    book b(2);
    update(r, b, 1); update(r, b, 2);
    mc::parallel(
        [&] { update(r, b, 10); },
        [&] { auto s = r.snapshot(); b.check(s, "while updating"); },
        [&] { auto s = r.snapshot(); b.check(s, "while updating"); });
    b.rest(r.snapshot());
}

MC_MAIN()
