// @engine seq
// C08: uniform reservoir: exact until full, afterwards a valid sample whatever is drawn.
#include "rng_control.hpp"
#include <seq.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include "snap.hpp"
using namespace cxxmetrics;

namespace
{
using model = std::vector<long long>;      // sorted contents
int grid = 8;                              // distinct positions of a draw in the engine's range
int fixed_draw = -1;
unsigned long rejected = 0;

uint_fast32_t draw()
{
    int k = fixed_draw >= 0 ? fixed_draw : seq::choose(grid + 2);
    if (k == grid) return rngc::lo;        // the extremes; a rejected maximum is followed by mid range values
    if (k == grid + 1) return (++rejected & 1) ? rngc::hi : rngc::at(1, 2);
    return rngc::at(2 * k + 1, 2 * grid);
}

struct session { session() { rngc::source() = &draw; rngc::draws() = 0; fixed_draw = -1; rejected = 0; } ~session() { rngc::source() = nullptr; } };

template<size_t N, typename T>
std::vector<long long> read(const uniform_reservoir<T, N>& r)
{
    auto s = r.snapshot();
    SEQ_CHECK(s.size() <= N, "snapshot of %zu values from a reservoir of capacity %zu", s.size(), N);
    return snap::ints(s);
}

// every value was recorded (as often as it appears); with_new: the newest value is there
template<size_t N, typename T>
void updated(const char* who, const uniform_reservoir<T, N>& r, model& m, long long v)
{
    auto got = read<N, T>(r);
    model want = m;
    if (m.size() < N)
    {
        want.insert(std::upper_bound(want.begin(), want.end(), v), v);
        SEQ_CHECK(got == want, "%s: after update(%lld) of a reservoir that is not full: %s, expected %s", who, v, snap::str(got).c_str(), snap::str(want).c_str());
        m = got;
        return;
    }
    // exactly one old value was replaced by v
    bool ok = got.size() == N;
    if (ok)
    {
        ok = false;
        for (size_t i = 0; i < m.size() && !ok; ++i)
        {
            model c = m;
            c.erase(c.begin() + i);
            c.insert(std::upper_bound(c.begin(), c.end(), v), v);
            ok = c == got;
        }
    }
    SEQ_CHECK(ok, "%s: after update(%lld) the reservoir %s became %s", who, v, snap::str(m).c_str(), snap::str(got).c_str());
    m = got;
}

template<size_t N, typename T>
void same(const char* who, const uniform_reservoir<T, N>& r, const model& m)
{
    auto got = read<N, T>(r);
    SEQ_CHECK(got == m, "%s changed: %s, expected %s", who, snap::str(got).c_str(), snap::str(m).c_str());
}

template<size_t N, typename T>
struct boxed { unsigned char before[64]; uniform_reservoir<T, N> r; unsigned char after[64];
    boxed() { fill(); } boxed(const boxed& o) : r(o.r) { fill(); }
    void fill() { std::fill(before, before + 64, 0x5a); std::fill(after, after + 64, 0x5a); }
    void check() const { for (int i = 0; i < 64; ++i) SEQ_CHECK(before[i] == 0x5a && after[i] == 0x5a, "memory next to the reservoir was overwritten"); } };

// all sequences of updates on one reservoir, all draws
template<size_t N, typename T>
void fillrun(int after)
{
    session s;
    grid = 2 * (int)N;
    auto b = std::make_unique<boxed<N, T>>();
    model m;
    same<N, T>("new reservoir", b->r, m);
    for (int i = 0; i < (int)N + after; ++i)
    {
        long long v = (i == 1 && seq::choose(2)) ? 1 : i + 1;        // possibly a repeated value
        seq::log("update(%lld)", v);
        b->r.update(T(v));
        seq::op();
        updated<N, T>("R", b->r, m, v);
        b->check();
    }
}

// two reservoirs: updates, copies, assignments, draws
template<size_t N, typename T>
void two(int depth)
{
    session s;
    grid = (int)N;
    std::unique_ptr<boxed<N, T>> a(new boxed<N, T>()), b(new boxed<N, T>());
    model ma, mb;
    int next = 1;
    int pa = seq::choose((int)N + 3), pb = seq::choose(2) ? (int)N + 1 : 0;
    fixed_draw = 0;
    for (int i = 0; i < pa; ++i) { a->r.update(T(next)); updated<N, T>("A", a->r, ma, next++); seq::op(); }
    for (int i = 0; i < pb; ++i) { b->r.update(T(next)); updated<N, T>("B", b->r, mb, next++); seq::op(); }
    fixed_draw = -1;
    for (int d = 0; d < depth; ++d)
    {
        seq::op();
        switch (seq::choose(6))
        {
        case 0: seq::log("A.update(%d)", next); a->r.update(T(next)); updated<N, T>("A", a->r, ma, next++); break;
        case 1: seq::log("B.update(%d)", next); b->r.update(T(next)); updated<N, T>("B", b->r, mb, next++); break;
        case 2: seq::log("A = B"); a->r = b->r; ma = mb; break;
        case 3: seq::log("B = A"); b->r = a->r; mb = ma; break;
        case 4: seq::log("B is a copy of A"); b.reset(new boxed<N, T>(*a)); mb = ma; break;
        case 5: { seq::log("A = A"); auto& self = a->r; a->r = self; break; }
        }
        same<N, T>("A", a->r, ma);
        same<N, T>("B", b->r, mb);
        a->check(); b->check();
    }
}

// every slot can be chosen, nothing outside is
template<size_t N, typename T>
void slots()
{
    session s;
    grid = 4 * (int)N;
    int fill = (int)N + seq::choose(3 * (int)N);
    boxed<N, T> base;
    fixed_draw = 0;
    model m;
    for (int i = 1; i <= fill; ++i) { base.r.update(T(i)); updated<N, T>("R", base.r, m, i); seq::op(); }
    unsigned long before = rngc::draws();
    std::set<long long> replaced;
    for (int k = 0; k < grid; ++k)
    {
        fixed_draw = k;
        boxed<N, T> c(base);
        model mc = m;
        c.r.update(T(1000));
        seq::op();
        updated<N, T>("copy", c.r, mc, 1000);
        c.check();
        for (auto v : m) if (std::find(mc.begin(), mc.end(), v) == mc.end()) replaced.insert(v);
    }
    same<N, T>("R", base.r, m);
    if (rngc::draws() - before >= (unsigned long)grid)
        SEQ_CHECK(replaced.size() == N, "only %zu of %zu values can ever be replaced", replaced.size(), N);
}

// over the whole range of the generator, every update picks all slots equally often
unsigned long range_at, range_of, range_again;
uint_fast32_t in_range()
{
    if (range_again++) return rngc::at((range_at * 7919 + range_again * 104729) % range_of, range_of);     // the last one was rejected
    return rngc::at(2 * range_at + 1, 2 * range_of);
}

template<size_t N, typename T>
void shares()
{
    session s;
    int extra = seq::choose(5);
    unsigned long of = seq::thorough() ? 4000000 : 200000;
    seq::log("the update number %d of a full reservoir of size %zu, for %lu draws", extra + 1, N, of);
    auto prepare = [&](uniform_reservoir<T, N>& r) {
        for (int i = 1; i <= (int)N + extra; ++i) { range_again = 0; r.update(T(i)); }
    };
    range_at = 1; range_of = 3;
    rngc::source() = &in_range;
    model m;
    { uniform_reservoir<T, N> r; prepare(r); m = read<N, T>(r); }
    SEQ_CHECK(m.size() == N, "%zu values in a reservoir of %zu", m.size(), N);
    unsigned long before = rngc::draws();
    long long sum = 0;
    for (auto v : m) sum += v;
    std::vector<unsigned long> count(N + extra + 1);
    for (unsigned long k = 0; k < of; ++k)
    {
        uniform_reservoir<T, N> r;
        range_at = 1; range_of = 3;
        prepare(r);
        range_at = k; range_of = of; range_again = 0;
        r.update(T(1000));
        long long now = 0;
        for (auto v : read<N, T>(r)) now += v;
        auto gone = sum + 1000 - now;
        SEQ_CHECK(gone >= 0 && gone < (long long)count.size(), "the sum of the values goes from %lld to %lld", sum, now);
        ++count[gone];
        if (k % 1024 == 0) seq::op();
    }
    if (rngc::draws() - before < of) return;        // the numbers come from elsewhere
    for (auto v : m)
        SEQ_CHECK(std::abs((double)count[v] * N / of - 1) < 0.02, "%lu of %lu draws replace the value %lld, %lu should", count[v], of, v, of / N);
}

// long history: the bookkeeping does not wear out
template<size_t N, typename T>
void longrun()
{
    session s;
    grid = 4;
    fixed_draw = seq::choose(4);
    int len = 1 + seq::choose(80);
    uniform_reservoir<T, N> r;
    model m;
    for (int i = 1; i <= len; ++i) { r.update(T(i)); updated<N, T>("R", r, m, i); seq::op(); }
    SEQ_CHECK(snap::ints(r.snapshot()).size() == (size_t)std::min<int>(len, N), "size wrong after %d updates", len);
}

// reservoirs of usual sizes that have been used for long, then copied
template<size_t N, typename T>
void worn(const std::vector<long>& lengths)
{
    session s;
    using R = uniform_reservoir<T, N>;
    grid = 4;
    fixed_draw = seq::choose(4);
    long n = lengths[seq::choose(lengths.size())];
    std::unique_ptr<R> a(new R()), b(new R());
    seq::log("%ld updates of a reservoir of size %zu", n, N);
    model m;
    for (long i = 1; i <= n; ++i)
    {
        bool look = N <= 8 && (i < 40 || (i < 200000 && (i + 2) % 128 < 5) || i > n - 5);
        if (look) m = read<N, T>(*a);
        a->update(T(i % 30011));
        if (look) updated<N, T>("A", *a, m, i % 30011);
    }
    seq::op();
    int how = seq::choose(4);
    std::vector<long long> all;
    for (long i = 1; i <= n && i <= (long)N; ++i) all.push_back(i);
    auto expect = [&](const R& r, int more) {
        auto sn = r.snapshot();
        auto size = std::min<size_t>(n + more, N);
        SEQ_CHECK(sn.size() == size, "%zu values after %ld updates", sn.size(), n + more);
        if (n + more <= (long)N)
        {
            auto v = all;
            for (int i = 1; i <= more; ++i) v.insert(v.begin(), -i);
            auto w = snap::wrong(sn, v);
            SEQ_CHECK(w.empty(), "after %ld updates: %s", n + more, w.c_str());
        }
    };
    expect(*a, 0);
    auto before = a->snapshot();
    if (how == 1) { seq::log("A is replaced by a copy"); b.reset(new R(*a)); a.swap(b); }
    if (how == 2) { seq::log("assigned to a new one"); *b = *a; a.swap(b); }
    if (how == 3) { seq::log("assigned to a full one"); for (size_t i = 0; i < N + 2; ++i) b->update(T(-1)); *b = *a; a.swap(b); }
    expect(*a, 0);
    auto after = a->snapshot();
    SEQ_CHECK(after.size() == before.size() && after.mean() == before.mean() && after.min() == before.min() && after.max() == before.max(), "the copy differs");
    for (int i = 1; i <= 5; ++i)
    {
        if (N <= 8) m = read<N, T>(*a);
        a->update(T(-i));
        seq::op();
        if (N <= 8) updated<N, T>("A", *a, m, -i);
        expect(*a, i);
        SEQ_CHECK(static_cast<int64_t>(a->snapshot().min()) == -i, "the newest value %d is missing", -i);
    }
}
}

SEQ_HARNESS(c08_fill_1, seq::F_LEAK) { fillrun<1, int64_t>(3); }
SEQ_HARNESS(c08_fill_2, seq::F_LEAK) { fillrun<2, int>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c08_fill_3, seq::F_LEAK) { fillrun<3, double>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c08_fill_4, seq::F_LEAK) { fillrun<4, short>(seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c08_fill_5, seq::F_LEAK) { fillrun<5, long long>(seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c08_two_2, seq::F_LEAK) { two<2, int64_t>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c08_two_3, seq::F_LEAK) { two<3, int>(seq::thorough() ? 5 : 3); }
SEQ_HARNESS(c08_two_1, seq::F_LEAK) { two<1, double>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c08_slots_1) { slots<1, int>(); }
SEQ_HARNESS(c08_slots_2) { slots<2, int64_t>(); }
SEQ_HARNESS(c08_slots_3) { slots<3, double>(); }
SEQ_HARNESS(c08_slots_5) { slots<5, int>(); }
SEQ_HARNESS(c08_slots_8) { slots<8, int>(); }
SEQ_HARNESS(c08_shares_2) { shares<2, int>(); }
SEQ_HARNESS(c08_shares_3) { shares<3, int64_t>(); }
SEQ_HARNESS(c08_shares_5) { shares<5, double>(); }
SEQ_HARNESS(c08_long_3) { longrun<3, int>(); }
SEQ_HARNESS(c08_worn_3) { worn<3, int>({ 127, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000 }); }
SEQ_HARNESS(c08_worn_5) { worn<5, int64_t>({ 127, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000 }); }
SEQ_HARNESS(c08_sized_64) { worn<64, double>({ 0, 1, 63, 64, 65, 128, 200 }); }
SEQ_HARNESS(c08_sized_300) { worn<300, int>({ 0, 1, 255, 256, 257, 299, 300, 301, 600 }); }
SEQ_HARNESS(c08_sized_1024) { worn<1024, int64_t>({ 0, 5, 1023, 1024, 1025, 1500 }); }
SEQ_HARNESS(c08_long_8) { longrun<8, int64_t>(); }
// more values than 32 bits can count
SEQ_HARNESS(c08_worn_out, seq::F_THOROUGH)
{
    const int64_t wrap = 1ll << 32;
    session s;
    grid = 4;
    fixed_draw = 1;
    uniform_reservoir<int, 3> r;
    model m;
    for (int64_t i = 1; i < wrap + 6; ++i)
    {
        if (i % 65536 == 0) seq::op(65536);
        bool look = i > wrap - 5;
        if (look) m = read<3, int>(r);
        r.update(int(i % 30011));
        if (look) updated<3, int>("R", r, m, i % 30011);
    }
}
