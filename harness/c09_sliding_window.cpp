// @engine seq
// C09: a sliding window reservoir holds exactly the last N values that are not older than the window.
#include <seq.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include "snap.hpp"
using namespace cxxmetrics;
using ns = std::chrono::nanoseconds;

namespace
{
// a clock with its own time, so that it matters which clock a reservoir uses
struct pclk
{
    int64_t* t;
    std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(ns(*t)); }
};
int64_t zero_time = 0;

struct model
{
    struct rec { int64_t at; long long v; };
    std::vector<rec> all;
    int64_t window = 0;
    int64_t* clk = nullptr;
    std::vector<long long> expected(size_t n) const
    {
        std::vector<long long> r;
        size_t from = all.size() > n ? all.size() - n : 0;
        for (size_t i = from; i < all.size(); ++i) if (*clk - all[i].at <= window) r.push_back(all[i].v);
        std::sort(r.begin(), r.end());
        return r;
    }
};

template<size_t N, typename R>
void compare(const char* who, const R& r, const model& m)
{
    auto want = m.expected(N);
    if (N > 12)
    {
        auto w = snap::wrong(r.snapshot(), want);
        SEQ_CHECK(w.empty(), "reservoir %s (capacity %zu, window %lld) at time %lld: %s", who, N, (long long)m.window, (long long)*m.clk, w.c_str());
        return;
    }
    auto got = snap::ints(r.snapshot());
    SEQ_CHECK(got == want, "reservoir %s (capacity %zu, window %lld) reports %s at time %lld, expected %s", who, N, (long long)m.window, snap::str(got).c_str(), (long long)*m.clk, snap::str(want).c_str());
}

// one reservoir, all patterns of clock advances and updates
template<size_t N, typename T>
void timeline(int64_t W, int64_t start, int depth)
{
    int64_t t = start;
    sliding_window_reservoir<T, N, pclk> r{ ns(W), pclk{ &t } };
    model m; m.window = W; m.clk = &t;
    compare<N>("R", r, m);
    const int64_t adv[] = { 0, 1, W - 1, W, W + 1, 3 * W };
    for (int d = 0; d < depth; ++d)
    {
        int64_t a = seq::pick(adv);
        t += a;
        int o = seq::choose(3);    // 0: only look, 1: record, 2: record the same value twice
        seq::log("advance %lld%s", (long long)a, o == 0 ? "" : o == 1 ? ", update" : ", update twice");
        seq::op();
        for (int i = 0; i < o; ++i) { r.update(T(o == 2 ? 7 : d + 1)); m.all.push_back({ t, o == 2 ? 7 : d + 1 }); }
        compare<N>("R", r, m);
        if (d & 1) compare<N>("R", r, m);    // snapshots change nothing
    }
}

// the clock may also run backwards between updates
template<size_t N, typename T>
void backwards(int64_t W, int depth)
{
    int64_t t = 1000;
    sliding_window_reservoir<T, N, pclk> r{ ns(W), pclk{ &t } };
    model m; m.window = W; m.clk = &t;
    const int64_t adv[] = { 0, 1, W, W + 1, -1, -W, -W - 1 };
    for (int d = 0; d < depth; ++d)
    {
        t += seq::pick(adv);
        seq::log("time %lld, update", (long long)t);
        r.update(T(d)); m.all.push_back({ t, d });
        seq::op();
        t += seq::pick(adv);
        seq::log("time %lld", (long long)t);
        compare<N>("R", r, m);
    }
}

// two reservoirs with different windows and clocks
template<size_t N, typename T>
void two(int depth)
{
    using R = sliding_window_reservoir<T, N, pclk>;
    int64_t t1 = 100, t2 = 5000;
    std::unique_ptr<R> a(new R(ns(10), pclk{ &t1 })), b(new R(ns(25), pclk{ &t2 }));
    model ma, mb;
    ma.window = 10; ma.clk = &t1; mb.window = 25; mb.clk = &t2;
    int next = 1;
    auto upd = [&](R& r, model& m) { r.update(T(next)); m.all.push_back({ *m.clk, next++ }); seq::op(); };
    int pa = seq::choose((int)N + 2), pb = seq::choose(2) ? (int)N + 1 : 1;
    for (int i = 0; i < pa; ++i) { upd(*a, ma); t1 += 2; }
    for (int i = 0; i < pb; ++i) { upd(*b, mb); t2 += 3; }
    for (int d = 0; d < depth; ++d)
    {
        seq::op();
        switch (seq::choose(8))
        {
        case 0: seq::log("A.update"); upd(*a, ma); break;
        case 1: seq::log("B.update"); upd(*b, mb); break;
        case 2: seq::log("clock 1 += 7"); t1 += 7; break;
        case 3: seq::log("clock 2 += 13"); t2 += 13; break;
        case 4: seq::log("A = B"); *a = *b; ma = mb; break;
        case 5: seq::log("B = A"); *b = *a; mb = ma; break;
        case 6: seq::log("B is a copy of A"); b.reset(new R(*a)); mb = ma; break;
        case 7: { seq::log("A = A"); R& self = *a; *a = self; break; }
        }
        compare<N>("A", *a, ma);
        compare<N>("B", *b, mb);
    }
}

// default clock and default window (one minute)
template<size_t N>
void defaults(int depth)
{
    sliding_window_reservoir<int64_t, N> r;
    model m;
    const int64_t M = 60000000000ll;
    int64_t t = 0;
    m.window = M; m.clk = &t;
    const int64_t adv[] = { 0, M / 2, M, M + 1 };
    for (int d = 0; d < depth; ++d)
    {
        int64_t a = seq::pick(adv);
        seq::advance(a); t += a;
        if (seq::choose(2)) { r.update(d); m.all.push_back({ t, d }); }
        seq::op();
        compare<N>("R", r, m);
    }
}

// reservoirs of usual sizes that have been used for long: one value per tick, then copies, time and more values
template<size_t N, typename T>
void worn(const std::vector<long>& lengths, int64_t W)
{
    using R = sliding_window_reservoir<T, N, pclk>;
    int64_t t = 1000;
    long n = lengths[seq::choose(lengths.size())];
    std::unique_ptr<R> a(new R(ns(W), pclk{ &t })), b(new R(ns(W + 5), pclk{ &t }));
    model m; m.window = W; m.clk = &t;
    seq::log("%ld updates of a reservoir of size %zu and window %lld", n, N, (long long)W);
    for (long i = 1; i <= n; ++i) { ++t; a->update(T(i % 30011)); if (n - i <= (long)N + 2) m.all.push_back({ t, i % 30011 }); }
    seq::op();
    compare<N>("A", *a, m);
    int how = seq::choose(4);
    if (how == 1) { seq::log("A is replaced by a copy"); b.reset(new R(*a)); a.swap(b); }
    if (how == 2) { seq::log("assigned to a new one"); *b = *a; a.swap(b); }
    if (how == 3) { seq::log("assigned to a full one"); for (size_t i = 0; i < N + 2; ++i) b->update(T(-1)); *b = *a; a.swap(b); }
    compare<N>("A", *a, m);
    const int64_t later[] = { 0, 1, W / 2, W, W + 1 };
    auto dt = seq::pick(later);
    seq::log("%lld later", (long long)dt);
    t += dt;
    compare<N>("A", *a, m);
    static const int more[] = { 1, (int)N - 1, (int)N, (int)N + 1 };
    int k = seq::pick(more);
    seq::log("%d more", k);
    for (int i = 1; i <= k; ++i) { ++t; a->update(T(-i)); m.all.push_back({ t, -i }); seq::op(); if (N <= 8) compare<N>("A", *a, m); }
    compare<N>("A", *a, m);
}
}

SEQ_HARNESS(c09_worn_2) { worn<2, int>({ 127, 255, 256, 257, 32767, 65535, 65536, 65537 }, 3); }
SEQ_HARNESS(c09_worn_3) { worn<3, int64_t>({ 127, 255, 256, 257, 32767, 65535, 65536, 65537 }, 3); }
SEQ_HARNESS(c09_worn_7) { worn<7, double>({ 127, 255, 256, 257, 32767, 65535, 65536, 65537 }, 5); }
SEQ_HARNESS(c09_sized_64) { worn<64, double>({ 0, 1, 63, 64, 65, 128, 200 }, 40); }
SEQ_HARNESS(c09_sized_300) { worn<300, int>({ 0, 1, 255, 256, 257, 299, 300, 301, 600, 1000 }, 280); }
SEQ_HARNESS(c09_sized_1024) { worn<1024, int64_t>({ 0, 5, 1023, 1024, 1025, 2500 }, 1000); }
SEQ_HARNESS(c09_time_2) { timeline<2, int64_t>(10, 1000, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c09_time_3) { timeline<3, double>(10, 1000, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c09_time_4) { timeline<4, int>(2, 5, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c09_time_5) { timeline<5, int>(1, 1000000, seq::thorough() ? 5 : 3); }
SEQ_HARNESS(c09_back_2) { backwards<2, int>(10, 3 + seq::thorough()); }
SEQ_HARNESS(c09_back_3) { backwards<3, int>(10, 3 + seq::thorough()); }
SEQ_HARNESS(c09_two_2, seq::F_LEAK) { two<2, int64_t>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c09_two_3, seq::F_LEAK) { two<3, int>(seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c09_two_4, seq::F_LEAK) { two<4, double>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c09_default_3) { defaults<3>(seq::thorough() ? 6 : 5); }
// more values than 32 bits can count
SEQ_HARNESS(c09_worn_out, seq::F_THOROUGH)
{
    const int64_t wrap = 1ll << 32;
    int64_t t = 1000;
    sliding_window_reservoir<int, 3, pclk> r{ ns(2), pclk{ &t } };
    model m; m.window = 2; m.clk = &t;
    for (int64_t i = 1; i < wrap + 6; ++i)
    {
        if (i % 65536 == 0) seq::op(65536);
        ++t; r.update(int(i % 30011));
        if (i > wrap - 9) m.all.push_back({ t, i % 30011 });
        if (i > wrap - 5) { compare<3>("R", r, m); seq::op(); }
    }
}
