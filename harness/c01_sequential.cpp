// @engine seq
// C01, one thread: all operation sequences over boundary amounts.
#include <seq.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/counter.hpp>
using namespace cxxmetrics;

template<typename T, size_t N>
static void ops(const T (&amounts)[N], int depth)
{
    using U = typename std::make_unsigned<T>::type;
    T init = seq::choose(2) ? T(0) : amounts[seq::choose((int)N)];
    counter<T> c(init);
    U m = (U)init;
    for (int d = 0; d < depth; ++d)
    {
        int k = seq::choose(9);
        T a = k >= 3 && k <= 7 ? amounts[seq::choose((int)N)] : T(1);
        seq::op();
        // signed overflow has no defined result: such histories are left out
        if (std::is_signed<T>::value && k != 5 && k != 8)
        {
            T r;
            bool o = k == 0 || k == 1 ? __builtin_add_overflow((T)m, T(1), &r) : k == 2 ? __builtin_sub_overflow((T)m, T(1), &r)
                   : k == 4 ? (a == std::numeric_limits<T>::min() || __builtin_sub_overflow((T)m, a, &r)) : __builtin_add_overflow((T)m, a, &r);
            if (o) return;
        }
        switch (k)
        {
        case 0: { seq::log("++c"); auto& r = ++c; m = U(m + 1); SEQ_CHECK(&r == &c, "++c returned another object"); break; }
        case 1: { seq::log("c++"); T r = c++; SEQ_CHECK((U)r == m, "c++ returned %lld, expected %lld", (long long)r, (long long)(T)m); m = U(m + 1); break; }
        case 2: { seq::log("--c"); auto& r = --c; m = U(m - 1); SEQ_CHECK(&r == &c, "--c returned another object"); break; }
        case 3: { seq::log("c += %lld", (long long)a); auto& r = (c += a); m = U(m + U(a)); SEQ_CHECK(&r == &c, "c += returned another object"); break; }
        case 4: { seq::log("c -= %lld", (long long)a); auto& r = (c -= a); m = U(m - U(a)); SEQ_CHECK(&r == &c, "c -= returned another object"); break; }
        case 5: { seq::log("c = %lld", (long long)a); c = a; m = U(a); break; }
        case 6: { seq::log("incr(%lld)", (long long)a); T r = c.incr(a); m = U(m + U(a)); SEQ_CHECK((U)r == m, "incr returned %lld, expected %lld", (long long)r, (long long)(T)m); break; }
        case 7: { seq::log("incr(%lld) twice", (long long)a); c.incr(a); m = U(m + U(a)); break; }
        case 8: { seq::log("reads"); const counter<T>& k2 = c; (void)k2.value(); (void)static_cast<T>(k2); auto s = k2.snapshot(); SEQ_CHECK(s.value() == metric_value((T)m), "snapshot differs"); break; }
        }
        SEQ_CHECK((U)c.value() == m, "the value is %lld, expected %lld", (long long)c.value(), (long long)(T)m);
        SEQ_CHECK((U)static_cast<T>(c) == m, "the conversion gives another value");
        SEQ_CHECK((U)static_cast<T>(c.snapshot().value()) == m, "the snapshot has %lld, expected %lld", (long long)static_cast<T>(c.snapshot().value()), (long long)(T)m);
    }
}

static const int64_t a64[] = { 0, 1, -1, 5, 1ll << 40, INT64_MAX, INT64_MIN };
static const uint64_t u64[] = { 0, 1, 5, 1ull << 40, UINT64_MAX };
static const int a32[] = { 1, -1, 7, INT32_MAX, INT32_MIN };
static const unsigned u32[] = { 1, 7, UINT32_MAX };
SEQ_HARNESS(c01_seq_i64) { ops(a64, seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c01_seq_u64) { ops(u64, seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c01_seq_i32) { ops(a32, seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c01_seq_u32) { ops(u32, 4); }

// moving a counter moves its count: nothing is counted twice
template<typename T> void moves(int depth)
{
    counter<T> a, b(5);
    T va = 0, vb = 5;
    for (int i = 0; i < depth; ++i)
    {
        switch (seq::choose(6))
        {
        case 0: seq::log("a += 3"); a += 3; va += 3; break;
        case 1: seq::log("--b"); --b; vb -= 1; break;
        case 2: seq::log("a = move(b)"); a = std::move(b); va = vb; vb = 0; break;
        case 3: seq::log("b = move(a)"); b = std::move(a); vb = va; va = 0; break;
        case 4: { seq::log("a through a new counter"); counter<T> c(std::move(a)); SEQ_CHECK(c == va && a == T(0), "the new counter has %lld, the old one %lld, expected %lld and 0", (long long)T(c), (long long)T(a), (long long)va); a = c; break; }
        default: seq::log("b = a"); b = a; vb = va; break;
        }
        seq::op();
        SEQ_CHECK(a == va && b == vb, "the counters have %lld and %lld, expected %lld and %lld", (long long)T(a), (long long)T(b), (long long)va, (long long)vb);
    }
}
SEQ_HARNESS(c01_moves) { moves<int64_t>(6); }
SEQ_HARNESS(c01_moves_unsigned) { moves<uint32_t>(6); }
