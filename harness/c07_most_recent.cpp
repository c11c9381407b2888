// @engine seq
// C07: the snapshot of a most-recent-N reservoir is exactly the last N values, also after copies.
#include <seq.hpp>
#include <vector>
#include <algorithm>
#include <functional>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include "snap.hpp"
using namespace cxxmetrics;

namespace
{
using model = std::vector<long long>;      // everything recorded, in order

template<size_t N>
std::vector<long long> expected(const model& m)
{
    std::vector<long long> r(m.size() > N ? m.end() - N : m.begin(), m.end());
    std::sort(r.begin(), r.end());
    return r;
}

template<size_t N, typename T>
void compare(const char* who, const simple_reservoir<T, N>& r, const model& m)
{
    auto want = expected<N>(m);
    if (N > 12)
    {
        auto w = snap::wrong(r.snapshot(), want);
        SEQ_CHECK(w.empty(), "reservoir %s of size %zu: %s", who, N, w.c_str());
        return;
    }
    auto got = snap::ints(r.snapshot());
    SEQ_CHECK(got == want, "reservoir %s of size %zu reports %s, expected %s", who, N, snap::str(got).c_str(), snap::str(want).c_str());
    auto s = r.snapshot();
    if (!want.empty())
    {
        SEQ_CHECK(static_cast<long long>(static_cast<int64_t>(s.min())) == want.front() && static_cast<long long>(static_cast<int64_t>(s.max())) == want.back(),
            "min/max of %s wrong", who);
    }
}

// two reservoirs, every sequence of updates, copies and assignments
template<size_t N, typename T>
void two(int prefill, int depth)
{
    using R = simple_reservoir<T, N>;
    R* a = new R();
    R* b = new R();
    model ma, mb;
    int next = 1;
    int pa = seq::choose(prefill + 1), pb = seq::choose(2) ? (int)N + 1 : 0;
    for (int i = 0; i < pa; ++i) { a->update(T(next)); ma.push_back(next++); seq::op(); }
    for (int i = 0; i < pb; ++i) { b->update(T(next)); mb.push_back(next++); seq::op(); }
    seq::log("A prefilled with %d, B with %d", pa, pb);
    compare("A", *a, ma);
    compare("B", *b, mb);
    for (int d = 0; d < depth; ++d)
    {
        int o = seq::choose(8);
        seq::op();
        switch (o)
        {
        case 0: seq::log("A.update(%d)", next); a->update(T(next)); ma.push_back(next++); break;
        case 1: seq::log("B.update(%d)", next); b->update(T(next)); mb.push_back(next++); break;
        case 2: seq::log("B.update(1)"); b->update(T(1)); mb.push_back(1); break;      // repeated value
        case 3: seq::log("A = B"); *a = *b; ma = mb; break;
        case 4: seq::log("B = A"); *b = *a; mb = ma; break;
        case 5: { seq::log("B is a copy of A"); R* n = new R(*a); delete b; b = n; mb = ma; break; }
        case 6: { seq::log("A is moved from a copy of B"); R t(*b); R* n = new R(std::move(t)); delete a; a = n; ma = mb; break; }
        case 7: { seq::log("A = A"); R& self = *a; *a = self; break; }
        }
        compare("A", *a, ma);
        compare("B", *b, mb);
    }
    delete a;
    delete b;
}

// plain long histories: value pattern chosen per step, wraps the buffer several times
template<size_t N, typename T>
void longrun(int depth)
{
    simple_reservoir<T, N> r;
    model m;
    int skip = seq::choose(4 * (int)N);
    for (int i = 0; i < skip; ++i) { r.update(T(i % 3)); m.push_back(i % 3); seq::op(); }
    compare("R", r, m);
    for (int i = 0; i < depth; ++i)
    {
        int v = seq::choose(3);
        seq::log("update(%d)", v == 2 ? -5 : v);
        r.update(T(v == 2 ? -5 : v)); m.push_back(v == 2 ? -5 : v);
        seq::op();
        compare("R", r, m);
    }
}

// reservoirs of usual sizes that have been used for long: fill, copy, assign, go on
template<size_t N, typename T>
void worn(const std::vector<long>& lengths)
{
    using R = simple_reservoir<T, N>;
    long n = lengths[seq::choose(lengths.size())];
    std::unique_ptr<R> a(new R()), b(new R());
    seq::log("%ld updates of a reservoir of size %zu", n, N);
    for (long i = 1; i <= n; ++i) a->update(T(i % 30011));
    model m;
    for (long i = std::max(1l, n - (long)N); i <= n; ++i) m.push_back(i % 30011);
    seq::op();
    compare("A", *a, m);
    int how = seq::choose(4);
    if (how == 1) { seq::log("A is replaced by a copy"); b.reset(new R(*a)); a.swap(b); }
    if (how == 2) { seq::log("assigned to a new one"); *b = *a; a.swap(b); }
    if (how == 3) { seq::log("assigned to a full one"); for (size_t i = 0; i < N + 2; ++i) b->update(T(-1)); *b = *a; a.swap(b); }
    compare("A", *a, m);
    static const int more[] = { 1, 2, (int)N - 1, (int)N, (int)N + 1 };
    int k = seq::pick(more);
    seq::log("%d more", k);
    for (int i = 1; i <= k; ++i) { a->update(T(-i)); m.push_back(-i); seq::op(); if (N <= 8) compare("A", *a, m); }
    compare("A", *a, m);
}
}

SEQ_HARNESS(c07_worn_2) { worn<2, int>({ 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537 }); }
SEQ_HARNESS(c07_worn_3) { worn<3, int64_t>({ 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537 }); }
SEQ_HARNESS(c07_worn_7) { worn<7, double>({ 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537 }); }
SEQ_HARNESS(c07_sized_64) { worn<64, double>({ 0, 1, 63, 64, 65, 128, 200 }); }
SEQ_HARNESS(c07_sized_300) { worn<300, int>({ 0, 1, 255, 256, 257, 299, 300, 301, 600, 1000 }); }
SEQ_HARNESS(c07_sized_1024) { worn<1024, int64_t>({ 0, 5, 1023, 1024, 1025, 2500 }); }
SEQ_HARNESS(c07_two_2, seq::F_LEAK) { two<2, int64_t>(5, seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c07_two_3, seq::F_LEAK) { two<3, int>(7, seq::thorough() ? 6 : 4); }
SEQ_HARNESS(c07_two_4, seq::F_LEAK) { two<4, double>(9, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c07_two_5, seq::F_LEAK) { two<5, short>(11, seq::thorough() ? 5 : 3); }
SEQ_HARNESS(c07_long_2) { longrun<2, int>(seq::thorough() ? 9 : 7); }
SEQ_HARNESS(c07_long_3) { longrun<3, int64_t>(seq::thorough() ? 9 : 7); }
SEQ_HARNESS(c07_long_5) { longrun<5, double>(seq::thorough() ? 9 : 7); }
SEQ_HARNESS(c07_long_7) { longrun<7, int>(seq::thorough() ? 8 : 6); }
// more values than 32 bits can count
SEQ_HARNESS(c07_worn_out, seq::F_THOROUGH)
{
    const int64_t wrap = 1ll << 32;
    simple_reservoir<int, 3> r;
    model m;
    for (int64_t i = 1; i < wrap + 6; ++i)
    {
        if (i % 65536 == 0) seq::op(65536);
        r.update(int(i % 30011));
        if (i > wrap - 9) m.push_back(i % 30011);
        if (i > wrap - 5) { compare("R", r, m); seq::op(); }
    }
}
