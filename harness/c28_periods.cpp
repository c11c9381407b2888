// @engine seq
// C28: a period is the length of time it names, and mixes with durations as that length of time.
#include <seq.hpp>
#include <cstdint>
#include <ratio>
#include <type_traits>
#include <cxxmetrics/time.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using std::chrono::duration;

namespace
{
const period::value amounts[] = { 0, 1, 2, 3, 7, 59, 60, 61, 999, 1000, 1001, 3600, 86400, 2147483 };
constexpr int64_t scale[] = { 1, 1000, 1000000, 60000000ll, 3600000000ll };
const char* const unit[] = { "microseconds", "milliseconds", "seconds", "minutes", "hours" };

period made(int u, bool literal, period::value v)
{
    switch (u)
    {
        case 0: return literal ? operator""_micro(v) : cxxmetrics::time::microseconds(v);
        case 1: return literal ? operator""_msec(v) : cxxmetrics::time::milliseconds(v);
        case 2: return literal ? operator""_sec(v) : cxxmetrics::time::seconds(v);
        case 3: return literal ? operator""_min(v) : cxxmetrics::time::minutes(v);
        default: return literal ? operator""_hour(v) : cxxmetrics::time::hours(v);
    }
}
constexpr int64_t nanos(std::chrono::steady_clock::duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
}

// every unit, as a literal and as a function
SEQ_HARNESS(c28_units)
{
    int u = seq::choose(5);
    bool lit = seq::choose(2);
    period::value v = seq::pick(amounts);
    int64_t micros = (int64_t)v * scale[u];
    if (micros > INT64_MAX / 1000) return;
    period p = made(u, lit, v);
    seq::log("%lld %s", (long long)v, unit[u]);
    seq::op();
    std::chrono::steady_clock::duration d = p;
    SEQ_CHECK(nanos(d) == micros * 1000, "lasts %lld ns, expected %lld", (long long)nanos(d), (long long)micros * 1000);
    SEQ_CHECK(nanos(p.to_duration()) == micros * 1000, "to_duration() is %lld ns, expected %lld", (long long)nanos(p.to_duration()), (long long)micros * 1000);
    period::value raw = p;
    SEQ_CHECK((int64_t)raw == micros, "counts %lld microseconds, expected %lld", (long long)raw, (long long)micros);
    period q(raw);
    SEQ_CHECK(nanos(q.to_duration()) == micros * 1000, "rebuilt from its value it lasts %lld ns", (long long)nanos(q.to_duration()));
}

// the same as constants of the compiler
SEQ_HARNESS(c28_constants)
{
    static_assert(std::is_convertible<period, std::chrono::steady_clock::duration>::value, "a period is a duration");
    constexpr int64_t got[] = { nanos((5_micro).to_duration()), nanos((5_msec).to_duration()), nanos((5_sec).to_duration()), nanos((5_min).to_duration()), nanos((5_hour).to_duration()),
                                (int64_t)period::value(1_hour), (int64_t)period::value(60_min), (int64_t)period::value(3600_sec) };
    const int64_t want[] = { 5000, 5000000, 5000000000ll, 300000000000ll, 18000000000000ll, 3600000000ll, 3600000000ll, 3600000000ll };
    for (int i = 0; i < 8; ++i) SEQ_CHECK(got[i] == want[i], "constant %d is %lld, expected %lld", i, (long long)got[i], (long long)want[i]);
}

// periods are scaled by numbers, and lengthened and shortened by microseconds
SEQ_HARNESS(c28_arithmetic)
{
    static const period::value a[] = { 0, 1, 2, 59, 1000, 1001, 60000000 }, b[] = { 1, 2, 3, 10, 1000, 60 };
    period::value x = seq::pick(a), y = seq::pick(b);
    int op = seq::choose(4);
    const period p(x);
    seq::log("%lld us %c %lld", (long long)x, "*/+-"[op], (long long)y);
    if (op == 3 && x < y) return;
    period r = op == 0 ? p * y : op == 1 ? p / y : op == 2 ? p + y : p - y;
    seq::op();
    int64_t want = op == 0 ? (int64_t)x * y : op == 1 ? (int64_t)x / y : op == 2 ? (int64_t)x + y : (int64_t)x - y;
    SEQ_CHECK(nanos(r.to_duration()) == want * 1000, "is %lld ns, expected %lld", (long long)nanos(r.to_duration()), (long long)want * 1000);
    SEQ_CHECK(period::value(p) == x, "the operand changed");
}

// a duration of any unit next to a period
template<typename D> void mixed()
{
    static const int64_t counts[] = { -3, -1, 0, 1, 2, 59, 60, 61, 999, 1000, 1001, 1999, 2000, 2001, 60000, 3600000 };
    static const period::value us[] = { 0, 1, 2, 60, 1000, 2000, 1000000, 2000000, 60000000 };
    int64_t c = seq::pick(counts);
    period::value u = seq::pick(us);
    D a(c);
    const period p(u);
    auto b = std::chrono::microseconds((int64_t)u);
    seq::log("%lld of %lld/%lld s and a period of %lld us", (long long)c, (long long)D::period::num, (long long)D::period::den, (long long)u);
    SEQ_CHECK((a < p) == (a < b), "< is %d", a < p);
    SEQ_CHECK((a <= p) == (a <= b), "<= is %d", a <= p);
    SEQ_CHECK((a > p) == (a > b), "> is %d", a > p);
    SEQ_CHECK((a >= p) == (a >= b), ">= is %d", a >= p);
    SEQ_CHECK(a + p == a + b, "+ is %lld ns", (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(a + p).count());
    SEQ_CHECK(a - p == a - b, "- is %lld ns", (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(a - p).count());
    if (u) SEQ_CHECK(a / p == a / b, "/ is %lld, expected %lld", (long long)(a / p), (long long)(a / b));
    SEQ_CHECK(a.count() == c, "the operand changed");
    seq::op(7);
}
SEQ_HARNESS(c28_nanoseconds) { mixed<std::chrono::nanoseconds>(); }
SEQ_HARNESS(c28_microseconds) { mixed<std::chrono::microseconds>(); }
SEQ_HARNESS(c28_milliseconds) { mixed<std::chrono::milliseconds>(); }
SEQ_HARNESS(c28_seconds) { mixed<std::chrono::seconds>(); }
SEQ_HARNESS(c28_minutes) { mixed<std::chrono::minutes>(); }
SEQ_HARNESS(c28_thirds) { mixed<duration<int64_t, std::ratio<1, 3>>>(); }

// a running duration is moved by a period
SEQ_HARNESS(c28_running)
{
    static const int64_t starts[] = { -5, 0, 1, 123456789 };
    std::chrono::nanoseconds d(seq::pick(starts));
    int64_t want = d.count();
    for (int i = 0; i < 3; ++i)
    {
        static const period::value by[] = { 0, 1, 1000, 60000000 };
        int op = seq::choose(2);
        period::value v = seq::pick(by);
        period p(v);
        seq::log("%c= %lld us", "+-"[op], (long long)v);
        auto back = op ? (d -= p) : (d += p);
        want += (op ? -1 : 1) * (int64_t)v * 1000;
        seq::op();
        SEQ_CHECK(d.count() == want && std::chrono::nanoseconds(back).count() == want, "the duration is %lld ns and the result %lld, expected %lld", (long long)d.count(), (long long)std::chrono::nanoseconds(back).count(), (long long)want);
    }
}
