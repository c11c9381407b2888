// @engine seq
// C13: comparison, arithmetic and conversion of metric values, for all pairs (triples) of boundary values
// of every held numeric type, against arithmetic in __int128 and long double.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metric_value.hpp>
#include <limits>
#include <vector>
#include <cmath>
#include <cstdlib>
using namespace cxxmetrics;
using ld = long double;
using i128 = __int128;

namespace
{
// by the conversion operator and by duration_cast
template<typename D>
D as(const metric_value& v)
{
    D d = v;
    D c = std::chrono::duration_cast<D>(v);
    SEQ_CHECK(c == d, "duration_cast gives %lld units, the conversion %lld", (long long)c.count(), (long long)d.count());
    return d;
}
enum kind { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F80 };
const char* const kname[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "long double" };
struct num { kind k; i128 i; ld f; metric_value v; };   // f is exact for every held type, i for the integral ones

const i128 one = 1;
i128 lowest(kind k) { return k >= F32 || (k & 1) ? i128(0) : -(one << ((8 << (k / 2)) - 1)); }
i128 highest(kind k) { return (one << ((8 << (k / 2)) - (k & 1 ? 0 : 1))) - 1; }
bool fits(i128 v, kind k) { return v >= lowest(k) && v <= highest(k); }
std::string dec(i128 v)
{
    if (!v) return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string r;
    for (; u; u /= 10) r.insert(r.begin(), char('0' + int(u % 10)));
    return neg ? "-" + r : r;
}

metric_value make(kind k, i128 i, ld f)
{
    switch (k)
    {
    case I8: return int8_t(i);
    case U8: return uint8_t(i);
    case I16: return int16_t(i);
    case U16: return uint16_t(i);
    case I32: return int32_t(i);
    case U32: return uint32_t(i);
    case I64: return int64_t(i);
    case U64: return uint64_t(i);
    case F32: return float(f);
    case F64: return double(f);
    default: return f;
    }
}

std::vector<num> table(bool small)
{
    std::vector<num> r;
    auto add = [&](kind k, i128 i) { if (!fits(i, k)) return; for (auto& x : r) if (x.k == k && x.i == i) return; r.push_back(num{ k, i, ld(i), make(k, i, 0) }); };
    for (int k = I8; k <= U64; ++k)
        for (i128 i : { i128(0), i128(1), i128(-1), i128(2), i128(3), i128(-5), i128(10), i128(100), lowest(kind(k)), lowest(kind(k)) + 1, highest(kind(k)), highest(kind(k)) - 1,
                        (one << 31) + 1, one << 32, -(one << 32), (one << 53) + 1, (one << 62) })
        {
            if (small && (k == I16 || k == U16 || i == 3 || i == 100 || i == 10 || i == lowest(kind(k)) + 1)) continue;
            add(kind(k), i);
        }
    auto addf = [&](kind k, ld f)
    {
        if (k == F32) f = float(f); else if (k == F64) f = double(f);
        if (!std::isfinite(f)) return;
        for (auto& x : r) if (x.k == k && x.f == f && std::signbit(x.f) == std::signbit(f)) return;
        r.push_back(num{ k, 0, f, make(k, 0, f) });
    };
    for (int k = F32; k <= F80; ++k)
        for (ld f : { 0.0L, -0.0L, 1.0L, -1.0L, 0.5L, 0.25L, -0.75L, 2.0L, 3.0L, 1.5L, 2.49L, 1e-6L, 1e10L, -1e10L, 9007199254740993.0L, 9223372036854775807.0L, 9223372036854775808.0L, -9223372036854775808.0L, 1e19L, 18446744073709551615.0L, 1e30L, -1e30L })
        {
            if (small && (f == 3.0L || f == 1e-6L || f == 2.49L || f == -0.75L || f == 1e30L)) continue;
            addf(kind(k), f);
        }
    return r;
}

std::string show(const num& x) { return std::string(kname[x.k]) + " " + (x.k < F32 ? dec(x.i) : seq::fmt("%.20Lg", x.f)); }
int sign(ld a, ld b) { return a < b ? -1 : a > b ? 1 : 0; }
kind wider(kind a, kind b) { return a > b ? a : b; }      // the enumerators are ordered by width

void same_value(const char* what, const num& a, const num& b, const metric_value& r, kind k, i128 want)
{
    std::string s = static_cast<std::string>(r);
    SEQ_CHECK(s == dec(want), "(%s) %s (%s) is %s, expected %s", show(a).c_str(), what, show(b).c_str(), s.c_str(), dec(want).c_str());
    SEQ_CHECK(k == U64 ? (i128)static_cast<uint64_t>(r) == want : (i128)static_cast<int64_t>(r) == want, "(%s) %s (%s) converts to %lld, expected %s", show(a).c_str(), what, show(b).c_str(), (long long)static_cast<int64_t>(r), dec(want).c_str());
}

void arithmetic(const num& a, const num& b)
{
    kind k = wider(a.k, b.k);
    for (int op = 0; op < 4; ++op)
    {
        static const char* const names[] = { "+", "-", "*", "/" };
        const char* n = names[op];
        if (op == 3 && k < F32 && b.i && !fits(a.i / b.i, k)) continue;    // the lowest number by -1 has no quotient
        metric_value r = op == 0 ? a.v + b.v : op == 1 ? a.v - b.v : op == 2 ? a.v * b.v : a.v / b.v;
        metric_value c(a.v);
        metric_value& back = op == 0 ? c += b.v : op == 1 ? c -= b.v : op == 2 ? c *= b.v : c /= b.v;
        seq::op(2);
        SEQ_CHECK(&back == &c, "compound assignment returns another object");
        SEQ_CHECK(static_cast<std::string>(c) == static_cast<std::string>(r), "(%s) %s= (%s) gives %s, the operator %s", show(a).c_str(), n, show(b).c_str(), static_cast<std::string>(c).c_str(), static_cast<std::string>(r).c_str());
        if (k < F32)
        {
            if (op == 3)
            {
                if (b.i == 0) { same_value(n, a, b, r, k, 0); continue; }
                if (!fits(a.i, k) || !fits(b.i, k) || !fits(a.i / b.i, k)) continue;
                same_value(n, a, b, r, k, a.i / b.i);
                continue;
            }
            i128 exact = op == 0 ? a.i + b.i : op == 1 ? a.i - b.i : 0;
            if (op == 2 && __builtin_mul_overflow(a.i, b.i, &exact)) continue;
            if (fits(exact, k)) same_value(n, a, b, r, k, exact);
            else if (k & 1)
            {
                unsigned __int128 m = (unsigned __int128)exact & (((unsigned __int128)1 << (8 << (k / 2))) - 1);
                same_value(n, a, b, r, k, (i128)m);     // unsigned arithmetic wraps
            }
            continue;
        }
        ld got = static_cast<ld>(r);
        ld eps = k == F32 ? std::numeric_limits<float>::epsilon() : k == F64 ? std::numeric_limits<double>::epsilon() : std::numeric_limits<ld>::epsilon();
        ld top = k == F32 ? std::numeric_limits<float>::max() : k == F64 ? std::numeric_limits<double>::max() : std::numeric_limits<ld>::max();
        ld exact, tol;
        switch (op)
        {
        case 0: exact = a.f + b.f; tol = 4 * eps * (fabsl(a.f) + fabsl(b.f)); break;
        case 1: exact = a.f - b.f; tol = 4 * eps * (fabsl(a.f) + fabsl(b.f)); break;
        case 2: exact = a.f * b.f; tol = 4 * eps * fabsl(exact); break;
        default: exact = b.f == 0 ? 0 : a.f / b.f; tol = 4 * eps * fabsl(exact); break;
        }
        if (fabsl(exact) > top / 2) continue;
        tol += k == F32 ? 1e-37L : 0;
        SEQ_CHECK(fabsl(got - exact) <= tol, "(%s) %s (%s) is %.20Lg, expected %.20Lg", show(a).c_str(), n, show(b).c_str(), got, exact);
        SEQ_CHECK(static_cast<std::string>(r).find('.') != std::string::npos, "(%s) %s (%s) has the text %s of an integer", show(a).c_str(), n, show(b).c_str(), static_cast<std::string>(r).c_str());
    }
}

void compare(const num& a, const num& b)
{
    int s = sign(a.f, b.f);
    const metric_value &x = a.v, &y = b.v;
    seq::op(6);
    SEQ_CHECK((x < y) == (s < 0), "(%s) < (%s) is %d", show(a).c_str(), show(b).c_str(), int(x < y));
    SEQ_CHECK((x > y) == (s > 0), "(%s) > (%s) is %d", show(a).c_str(), show(b).c_str(), int(x > y));
    SEQ_CHECK((x <= y) == (s <= 0), "(%s) <= (%s) is %d", show(a).c_str(), show(b).c_str(), int(x <= y));
    SEQ_CHECK((x >= y) == (s >= 0), "(%s) >= (%s) is %d", show(a).c_str(), show(b).c_str(), int(x >= y));
    SEQ_CHECK((x == y) == (s == 0), "(%s) == (%s) is %d", show(a).c_str(), show(b).c_str(), int(x == y));
    SEQ_CHECK((x != y) == (s != 0), "(%s) != (%s) is %d", show(a).c_str(), show(b).c_str(), int(x != y));
    if (a.k == b.k && s == 0) SEQ_CHECK(std::hash<metric_value>()(x) == std::hash<metric_value>()(y), "(%s) and (%s) are equal and hash differently", show(a).c_str(), show(b).c_str());
}

template<typename T>
void to_int(const num& a, const metric_value& v, kind k)
{
    i128 want;
    if (a.k < F32) want = a.i;
    else { ld r = roundl(a.f); if (fabsl(r) > 3e19L) return; want = (i128)r; }
    if (!fits(want, k)) return;
    SEQ_CHECK((i128)static_cast<T>(v) == want, "(%s) converts to %s %s, expected %s", show(a).c_str(), kname[k], dec((i128)static_cast<T>(v)).c_str(), dec(want).c_str());
}

void convert_from(const num& a, const metric_value& v)
{
    seq::op(11);
    to_int<int8_t>(a, v, I8); to_int<uint8_t>(a, v, U8); to_int<int16_t>(a, v, I16); to_int<uint16_t>(a, v, U16);
    to_int<int32_t>(a, v, I32); to_int<uint32_t>(a, v, U32); to_int<int64_t>(a, v, I64); to_int<uint64_t>(a, v, U64);
    SEQ_CHECK(static_cast<ld>(v) == a.f, "(%s) converts to long double %.20Lg", show(a).c_str(), static_cast<ld>(v));
    SEQ_CHECK(static_cast<double>(v) == (double)a.f, "(%s) converts to double %.20g", show(a).c_str(), static_cast<double>(v));
    if (fabsl(a.f) < 1e38L) SEQ_CHECK(static_cast<float>(v) == (float)a.f, "(%s) converts to float %.20g", show(a).c_str(), static_cast<float>(v));
    std::string s = static_cast<std::string>(v);
    if (a.k < F32) SEQ_CHECK(s == dec(a.i), "(%s) has the text %s", show(a).c_str(), s.c_str());
    else
    {
        char* end;
        ld back = strtold(s.c_str(), &end);
        SEQ_CHECK(!*end && fabsl(back - a.f) <= 5.1e-7L + 1e-18L * fabsl(a.f), "(%s) has the text %s", show(a).c_str(), s.c_str());
    }
    // as a duration, a number counts nanoseconds
    ld ns = a.k < F32 ? a.f : roundl(a.f);
    if (fabsl(ns) <= 9e18L)
    {
        SEQ_CHECK(as<std::chrono::nanoseconds>(v).count() == (int64_t)ns, "(%s) converts to %lld ns", show(a).c_str(), (long long)as<std::chrono::nanoseconds>(v).count());
        SEQ_CHECK(as<std::chrono::microseconds>(v).count() == (int64_t)ns / 1000, "(%s) converts to %lld us", show(a).c_str(), (long long)as<std::chrono::microseconds>(v).count());
    }
}

const std::vector<num>& all() { static const std::vector<num> t = table(false); return t; }
const std::vector<num>& few() { static const std::vector<num> t = table(true); return t; }
}

SEQ_HARNESS(c13_pairs_compare)
{
    auto& t = all();
    auto &a = t[seq::choose(t.size())], &b = t[seq::choose(t.size())];
    seq::log("%s, %s", show(a).c_str(), show(b).c_str());
    compare(a, b);
}
SEQ_HARNESS(c13_pairs_arithmetic)
{
    auto& t = all();
    auto &a = t[seq::choose(t.size())], &b = t[seq::choose(t.size())];
    seq::log("%s, %s", show(a).c_str(), show(b).c_str());
    arithmetic(a, b);
    SEQ_CHECK(static_cast<ld>(a.v) == a.f && static_cast<ld>(b.v) == b.f, "an operand changed");
}
SEQ_HARNESS(c13_order)
{
    auto& t = few();
    auto &a = t[seq::choose(t.size())], &b = t[seq::choose(t.size())], &c = t[seq::choose(t.size())];
    if (a.v < b.v && b.v < c.v) SEQ_CHECK(a.v < c.v, "(%s) < (%s) < (%s), but not the first < the last", show(a).c_str(), show(b).c_str(), show(c).c_str());
    if (a.v == b.v && b.v == c.v) SEQ_CHECK(a.v == c.v, "(%s) == (%s) == (%s), but not the first == the last", show(a).c_str(), show(b).c_str(), show(c).c_str());
    SEQ_CHECK(int(a.v < b.v) + int(a.v == b.v) + int(a.v > b.v) == 1, "(%s) and (%s) are not ordered", show(a).c_str(), show(b).c_str());
}
SEQ_HARNESS(c13_conversions)
{
    auto& t = all();
    auto& a = t[seq::choose(t.size())];
    seq::log("%s", show(a).c_str());
    convert_from(a, a.v);
    metric_value c(a.v);
    convert_from(a, c);
    metric_value m(std::move(c));
    convert_from(a, m);
    metric_value n(7);
    n = std::move(m);
    convert_from(a, n);
}
SEQ_HARNESS(c13_unary)
{
    auto& t = all();
    auto& a = t[seq::choose(t.size())];
    metric_value n = -a.v;
    if (a.k < F32) { if (fits(-a.i, a.k)) SEQ_CHECK(static_cast<std::string>(n) == dec(-a.i), "-(%s) is %s", show(a).c_str(), static_cast<std::string>(n).c_str()); }
    else SEQ_CHECK(static_cast<ld>(n) == -a.f, "-(%s) is %s", show(a).c_str(), static_cast<std::string>(n).c_str());
    if (a.k < F32)
    {
        metric_value c = ~a.v;
        i128 want = a.k & 1 ? highest(a.k) - a.i : -a.i - 1;
        SEQ_CHECK(static_cast<std::string>(c) == dec(want), "~(%s) is %s, expected %s", show(a).c_str(), static_cast<std::string>(c).c_str(), dec(want).c_str());
    }
}

// numbers written as text
SEQ_HARNESS(c13_text_integers)
{
    static const char* const texts[] = { "0", "1", "-1", "7", "42", "-99", "127", "128", "-128", "255", "32767", "65535", "2147483647", "-2147483648", "4294967295", "4294967296",
                                         "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615" };
    const char* s = seq::pick(texts);
    i128 v = 0;
    for (const char* p = s; *p; ++p) if (*p != '-') v = v * 10 + (*p - '0');
    if (*s == '-') v = -v;
    bool owned = seq::choose(2);
    metric_value m = owned ? metric_value(std::string(s)) : metric_value(s);
    metric_value c(m);
    num n{ v < 0 ? I64 : U64, v, (ld)v, metric_value(0) };
    to_int<int8_t>(n, m, I8); to_int<uint8_t>(n, m, U8); to_int<int16_t>(n, m, I16); to_int<uint16_t>(n, m, U16);
    to_int<int32_t>(n, c, I32); to_int<uint32_t>(n, c, U32); to_int<int64_t>(n, c, I64); to_int<uint64_t>(n, c, U64);
    SEQ_CHECK(static_cast<ld>(m) == (ld)v && static_cast<double>(m) == (double)v, "\"%s\" is the number %Lg", s, static_cast<ld>(m));
    SEQ_CHECK(static_cast<std::string>(m) == s && static_cast<std::string>(c) == s, "\"%s\" became \"%s\"", s, static_cast<std::string>(m).c_str());
    if (fits(v, I64)) SEQ_CHECK(as<std::chrono::nanoseconds>(m).count() == (int64_t)v, "\"%s\" is %lld ns", s, (long long)as<std::chrono::nanoseconds>(m).count());
    // arithmetic with numbers takes the text for its value
    metric_value sum = metric_value(int64_t(5)) + m;
    if (fits(v + 5, I64) && fits(v, I64)) SEQ_CHECK(static_cast<int64_t>(sum) == (int64_t)(v + 5), "5 + \"%s\" is %s", s, static_cast<std::string>(sum).c_str());
}
SEQ_HARNESS(c13_text_floats)
{
    static const char* const texts[] = { "0.5", "-0.25", "1e3", "123.456", "-1e-3", "3", "1e19", "0.000001" };
    const char* s = seq::pick(texts);
    metric_value m(s);
    ld v = strtold(s, nullptr);
    SEQ_CHECK(static_cast<ld>(m) == v && static_cast<double>(m) == (double)v && static_cast<float>(m) == (float)v, "\"%s\" is the number %Lg", s, static_cast<ld>(m));
}
// text that is not a number, or not only, is no number
SEQ_HARNESS(c13_text_no_numbers)
{
    static const char* const texts[] = { "", "a", "12us", "1 2", "0x", "--4", "5-", "1e", "1.5.2", "number 5" };
    std::string s = seq::pick(texts);
    metric_value m = seq::choose(2) ? metric_value(s) : metric_value(s.c_str());
    SEQ_CHECK(std::isnan(static_cast<ld>(m)), "\"%s\" is the number %Lg", s.c_str(), static_cast<ld>(m));
    SEQ_CHECK(static_cast<int64_t>(m) == 0 && static_cast<uint64_t>(m) == 0, "\"%s\" is the number %lld", s.c_str(), (long long)static_cast<int64_t>(m));
    SEQ_CHECK(as<std::chrono::nanoseconds>(m).count() == 0, "\"%s\" is %lld ns", s.c_str(), (long long)as<std::chrono::nanoseconds>(m).count());
    SEQ_CHECK(static_cast<std::string>(m) == s, "\"%s\" became \"%s\"", s.c_str(), static_cast<std::string>(m).c_str());
}
// a numeric text as the right operand stands for its number; the result has the type of the number on the left
SEQ_HARNESS(c13_text_operands)
{
    static const char* const texts[] = { "0", "2", "-3", "100", "2.5", "-0.5", "1e2", "0.0", "0.001" };
    auto& t = all();
    auto& a = t[seq::choose(t.size())];
    std::string s = seq::pick(texts);
    int op = seq::choose(4);
    bool whole = s.find_first_of(".e") == std::string::npos;
    ld v = strtold(s.c_str(), nullptr);
    metric_value b = seq::choose(2) ? metric_value(s) : metric_value(s.c_str());
    seq::log("(%s) %c \"%s\"", show(a).c_str(), "+-*/"[op], s.c_str());
    metric_value r = op == 0 ? a.v + b : op == 1 ? a.v - b : op == 2 ? a.v * b : a.v / b;
    metric_value c(a.v);
    if (op == 0) c += b; else if (op == 1) c -= b; else if (op == 2) c *= b; else c /= b;
    seq::op(2);
    SEQ_CHECK(static_cast<std::string>(c) == static_cast<std::string>(r), "the compound assignment gives %s, the operator %s", static_cast<std::string>(c).c_str(), static_cast<std::string>(r).c_str());
    if (a.k < F32)
    {
        if (whole)
        {
            i128 w = (i128)v, exact = op == 0 ? a.i + w : op == 1 ? a.i - w : op == 2 ? a.i * w : w == 0 ? 0 : a.i / w;
            if (fits(exact, a.k)) SEQ_CHECK(static_cast<std::string>(r) == dec(exact), "is %s, expected %s", static_cast<std::string>(r).c_str(), dec(exact).c_str());
            return;
        }
        ld exact = op == 0 ? a.f + v : op == 1 ? a.f - v : op == 2 ? a.f * v : v == 0 ? 0 : a.f / v;
        // 0.001 is no binary number: leave out what is near an integer only because of it
        if (fabsl(exact) > 4e18L || (fabsl(exact - roundl(exact)) > 0 && fabsl(exact - roundl(exact)) < 1e-4L) || (s == "0.001" && fabsl(exact) > 0 && exact == roundl(exact))) return;
        i128 cut = (i128)exact;
        if (fits(cut, a.k)) SEQ_CHECK(static_cast<std::string>(r) == dec(cut), "is %s, expected %s", static_cast<std::string>(r).c_str(), dec(cut).c_str());
        return;
    }
    ld exact = op == 0 ? a.f + v : op == 1 ? a.f - v : op == 2 ? a.f * v : v == 0 ? 0 : a.f / v;
    ld eps = a.k == F32 ? std::numeric_limits<float>::epsilon() : a.k == F64 ? std::numeric_limits<double>::epsilon() : std::numeric_limits<ld>::epsilon();
    ld got = static_cast<ld>(r);
    SEQ_CHECK(fabsl(got - exact) <= 4 * eps * (op < 2 ? fabsl(a.f) + fabsl(v) : fabsl(exact)), "is %.20Lg, expected %.20Lg", got, exact);
}
// a number in text as the left operand
SEQ_HARNESS(c13_text_left)
{
    static const char* const texts[] = { "0", "2", "-3", "100", "2.5", "-0.5", "1e2" };
    auto& t = all();
    auto& a = t[seq::choose(t.size())];
    std::string s = seq::pick(texts);
    int op = seq::choose(4);
    bool whole = s.find_first_of(".e") == std::string::npos;
    ld v = strtold(s.c_str(), nullptr);
    metric_value b(s);
    seq::log("\"%s\" %c (%s)", s.c_str(), "+-*/"[op], show(a).c_str());
    if (a.k < F32 && !whole) return;
    metric_value r = op == 0 ? b + a.v : op == 1 ? b - a.v : op == 2 ? b * a.v : b / a.v;
    seq::op();
    if (a.k < F32)
    {
        i128 w = (i128)v, exact = op == 0 ? w + a.i : op == 1 ? w - a.i : op == 2 ? w * a.i : a.i == 0 ? 0 : w / a.i;
        if (fits(exact, a.k) && fits(w, a.k)) SEQ_CHECK(static_cast<std::string>(r) == dec(exact), "is %s, expected %s", static_cast<std::string>(r).c_str(), dec(exact).c_str());
        return;
    }
    ld exact = op == 0 ? v + a.f : op == 1 ? v - a.f : op == 2 ? v * a.f : a.f == 0 ? 0 : v / a.f;
    ld eps = a.k == F32 ? std::numeric_limits<float>::epsilon() : a.k == F64 ? std::numeric_limits<double>::epsilon() : std::numeric_limits<ld>::epsilon();
    ld got = static_cast<ld>(r);
    ld most = a.k == F32 ? std::numeric_limits<float>::max() : a.k == F64 ? std::numeric_limits<double>::max() : std::numeric_limits<ld>::max();
    if (fabsl(exact) > most || (exact != 0 && fabsl(exact) < (a.k == F32 ? std::numeric_limits<float>::min() : a.k == F64 ? std::numeric_limits<double>::min() : std::numeric_limits<ld>::min()))) return;
    SEQ_CHECK(fabsl(got - exact) <= 4 * eps * (op < 2 ? fabsl(a.f) + fabsl(v) : fabsl(exact)), "is %.20Lg, expected %.20Lg", got, exact);
}
// texts are added by joining them
SEQ_HARNESS(c13_text_sums)
{
    static const std::string texts[] = { "", "a", "10", "2.5", std::string("x\0y", 3), "more than fifteen characters, so it has to be on the heap" };
    std::string a = seq::pick(texts), b = seq::pick(texts), c = seq::pick(texts);
    metric_value x(a), y(b), z(c);
    metric_value r = (x + y) + z, q = x + (y + z);
    metric_value w(a);
    w += y; w += z;
    seq::op(4);
    SEQ_CHECK(static_cast<std::string>(r) == a + b + c && static_cast<std::string>(q) == a + b + c && static_cast<std::string>(w) == a + b + c, "\"%s\" + \"%s\" + \"%s\" is \"%s\", \"%s\" or \"%s\"", a.c_str(), b.c_str(), c.c_str(), static_cast<std::string>(r).c_str(), static_cast<std::string>(q).c_str(), static_cast<std::string>(w).c_str());
    SEQ_CHECK(static_cast<std::string>(x) == a && static_cast<std::string>(y) == b && static_cast<std::string>(z) == c, "the operands changed");
}
// negating the text of a number negates the number; text that is no number has no negative
SEQ_HARNESS(c13_text_negatives)
{
    static const char* const texts[] = { "0", "1", "-1", "42", "-99", "9223372036854775807", "-9223372036854775807", "2.5", "-0.25", "1e3", "", "a", "12us", "--4" };
    std::string s = seq::pick(texts);
    metric_value x(s);
    bool whole = !s.empty() && s.find_first_not_of("-0123456789") == std::string::npos && s != "--4", bits = seq::choose(2);
    char* end = nullptr;
    ld v = strtold(s.c_str(), &end);
    bool number = !s.empty() && !*end;
    seq::log("%c\"%s\"", bits ? '~' : '-', s.c_str());
    if (bits && !whole && number) return;
    metric_value r = bits ? ~x : -x;
    std::string got = r;
    seq::op();
    if (whole) SEQ_CHECK(got == (bits ? dec(-(i128)strtoll(s.c_str(), nullptr, 10) - 1) : dec(-(i128)strtoll(s.c_str(), nullptr, 10))), "is \"%s\"", got.c_str());
    else if (number) SEQ_CHECK(fabsl(strtold(got.c_str(), nullptr) + v) < 1e-6L, "is \"%s\"", got.c_str());
    else SEQ_CHECK(got == s, "is \"%s\"", got.c_str());
    SEQ_CHECK(static_cast<std::string>(x) == s, "the operand became \"%s\"", static_cast<std::string>(x).c_str());
}
// texts compare as texts
SEQ_HARNESS(c13_strings)
{
    static const std::string texts[] = { "", "a", "A", "ab", "b", "10", "9", "a b", "\xc3\xa4", std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0", 1),
                                         "more than fifteen characters, so it has to be on the heap" };
    std::string a = seq::pick(texts), b = seq::pick(texts);
    metric_value x(a), y(b);
    SEQ_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "\"%s\" and \"%s\" compare wrongly", a.c_str(), b.c_str());
    if (a == b) SEQ_CHECK(std::hash<metric_value>()(x) == std::hash<metric_value>()(y), "equal texts hash differently");
    SEQ_CHECK(static_cast<std::string>(x + y) == a + b, "\"%s\" + \"%s\" is \"%s\"", a.c_str(), b.c_str(), static_cast<std::string>(x + y).c_str());
    metric_value z(x);
    x = metric_value(b);
    SEQ_CHECK(static_cast<std::string>(z) == a && static_cast<std::string>(x) == b, "assignment of a text");
    metric_value m(std::move(z)), n(7);
    n = std::move(x);
    SEQ_CHECK(static_cast<std::string>(m) == a && static_cast<std::string>(n) == b, "a moved text");
    n = metric_value(int8_t(7));
    m = metric_value(2.5L);
    SEQ_CHECK(static_cast<std::string>(n) == "7" && static_cast<long double>(m) == 2.5L, "a number assigned to a text");
    n = metric_value(b);
    n = metric_value(std::chrono::hours(2));
    SEQ_CHECK(as<std::chrono::minutes>(n).count() == 120, "a duration assigned to a text");
}

// durations keep their length and compare by it
namespace
{
struct dur { std::string name; int64_t ns, count; metric_value v; };
template<typename D> void add(std::vector<dur>& r, const char* n, D d)
{
    r.push_back(dur{ std::to_string(d.count()) + n, std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), (int64_t)d.count(), metric_value(d) });
}
const std::vector<dur>& durations()
{
    static const std::vector<dur> t = [] {
        std::vector<dur> r;
        for (int64_t c : { int64_t(0), int64_t(1), int64_t(-1), int64_t(2), int64_t(1000), int64_t(1500), int64_t(3600), int64_t(86400), int64_t(999999999), int64_t(3600000000000) })
        {
            add(r, "ns", std::chrono::nanoseconds(c));
            add(r, "us", std::chrono::microseconds(c));
            if (c < 999999999999) add(r, "ms", std::chrono::milliseconds(c));
            if (c < 9999999999) { add(r, "s", std::chrono::seconds(c)); }
            if (c < 100000) { add(r, "min", std::chrono::minutes(c)); add(r, "h", std::chrono::hours(c)); }
        }
        add(r, "ns", std::chrono::nanoseconds::max());
        add(r, "ns", std::chrono::nanoseconds::min());
        return r;
    }();
    return t;
}
}
SEQ_HARNESS(c13_durations)
{
    auto& t = durations();
    auto &a = t[seq::choose(t.size())], &b = t[seq::choose(t.size())];
    const metric_value &x = a.v, &y = b.v;
    SEQ_CHECK((x < y) == (a.ns < b.ns) && (x > y) == (a.ns > b.ns) && (x == y) == (a.ns == b.ns) && (x != y) == (a.ns != b.ns) && (x <= y) == (a.ns <= b.ns) && (x >= y) == (a.ns >= b.ns),
        "%s and %s compare wrongly: %d %d %d", a.name.c_str(), b.name.c_str(), int(x < y), int(x == y), int(x > y));
    SEQ_CHECK(as<std::chrono::nanoseconds>(x).count() == a.ns, "%s is %lld ns", a.name.c_str(), (long long)as<std::chrono::nanoseconds>(x).count());
    SEQ_CHECK(as<std::chrono::microseconds>(x).count() == a.ns / 1000, "%s is %lld us", a.name.c_str(), (long long)as<std::chrono::microseconds>(x).count());
    SEQ_CHECK(as<std::chrono::seconds>(x).count() == a.ns / 1000000000, "%s is %lld s", a.name.c_str(), (long long)as<std::chrono::seconds>(x).count());
    SEQ_CHECK(static_cast<int64_t>(x) == a.count && static_cast<ld>(x) == (ld)a.count && static_cast<std::string>(x) == std::to_string(a.count), "%s counts %lld", a.name.c_str(), (long long)static_cast<int64_t>(x));
    // sums and differences in the unit of the left operand, when both are of that unit
    if (a.ns > -4000000000000000000 && a.ns < 4000000000000000000 && b.ns > -4000000000000000000 && b.ns < 4000000000000000000)
    {
        metric_value s = x + y, d = x - y;
        int64_t unit = a.count ? a.ns / a.count : 0;
        if (unit && b.ns % unit == 0)
        {
            SEQ_CHECK(as<std::chrono::nanoseconds>(s).count() == a.ns + b.ns, "%s + %s is %lld ns", a.name.c_str(), b.name.c_str(), (long long)as<std::chrono::nanoseconds>(s).count());
            SEQ_CHECK(as<std::chrono::nanoseconds>(d).count() == a.ns - b.ns, "%s - %s is %lld ns", a.name.c_str(), b.name.c_str(), (long long)as<std::chrono::nanoseconds>(d).count());
        }
        metric_value n = -x;
        SEQ_CHECK(as<std::chrono::nanoseconds>(n).count() == -a.ns, "-%s is %lld ns", a.name.c_str(), (long long)as<std::chrono::nanoseconds>(n).count());
        metric_value twice = x * metric_value(2), half = x / metric_value(2), none = x / metric_value(0);
        SEQ_CHECK(static_cast<int64_t>(twice) == a.count * 2 && static_cast<int64_t>(half) == a.count / 2 && static_cast<int64_t>(none) == 0, "%s scaled: %lld %lld %lld", a.name.c_str(),
            (long long)static_cast<int64_t>(twice), (long long)static_cast<int64_t>(half), (long long)static_cast<int64_t>(none));
        if (a.count) SEQ_CHECK(as<std::chrono::nanoseconds>(twice).count() == a.ns * 2, "twice %s is %lld ns", a.name.c_str(), (long long)as<std::chrono::nanoseconds>(twice).count());
    }
}

// durations scaled by numeric text; numeric text as a time counts nanoseconds
SEQ_HARNESS(c13_text_scales)
{
    auto& t = durations();
    auto& a = t[seq::choose(t.size())];
    static const char* const texts[] = { "0", "2", "-3", "2.5", "0.5", "-0.25", "0.0", "1e2", "4.0" };
    std::string s = seq::pick(texts);
    ld v = strtold(s.c_str(), nullptr);
    metric_value b(s), p = a.v * b, q = a.v / b;
    seq::log("%s and \"%s\"", a.name.c_str(), s.c_str());
    ld product = a.count * v, quotient = v == 0 ? 0 : a.count / v;
    if (fabsl(product) < 9e18L) SEQ_CHECK(static_cast<int64_t>(p) == (int64_t)product, "the product counts %lld instead of %Lg", (long long)static_cast<int64_t>(p), product);
    if (fabsl(quotient) < 9e18L) SEQ_CHECK(static_cast<int64_t>(q) == (int64_t)quotient, "the quotient counts %lld instead of %Lg", (long long)static_cast<int64_t>(q), quotient);
    SEQ_CHECK(as<std::chrono::nanoseconds>(b).count() == (int64_t)v, "\"%s\" is %lld ns", s.c_str(), (long long)as<std::chrono::nanoseconds>(b).count());
}
