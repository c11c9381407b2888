// @engine seq
// C18: the Prometheus text is well-formed and says what the metrics say, for all names, tags, values, windows and mixtures.
#include "prom.hpp"
#include <iomanip>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
using steady = std::chrono::steady_clock;
using hres = simple_reservoir<int64_t, 3>;
using tres = simple_reservoir<steady::duration, 3>;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10)), M1 = period::value(time::minutes(1));
const char alphabet[] = { 'a', 'Z', '1', '_', ':', '"', '\\', '\n', '{', '}', ',', '=', ' ', '/', '\xc3', '\xa9', '-', '#', 'n', '\t' };
const int A = sizeof alphabet;

std::string word(int min, int max)
{
    int n = min + seq::choose(max - min + 1);
    std::string s;
    for (int i = 0; i < n; ++i) s += alphabet[seq::choose(A)];
    return s;
}

enum { COUNTER, SUM_GAUGE, GAUGE, EWMA, HISTOGRAM, METER, TIMER, KINDS };
// a metric of some kind with some content
void add(prom::world& w, int kind, const metric_path& p, const tag_collection& t, int v)
{
    switch (kind)
    {
        case COUNTER: { auto m = w.r.counter<int64_t>(p, t); *m += v; w.sum(p, t, m); break; }
        case SUM_GAUGE: { auto m = w.r.gauge<double, gauges::aggregation_sum>(p, v + 0.25, t); w.sum(p, t, m); break; }
        case GAUGE: { auto m = w.r.gauge<int>(p, int(v), t); w.average(p, t, m); break; }
        case EWMA: { auto m = w.r.ewma<M1, S1>(p, t); m->mark(v); w.average(p, t, m); break; }
        case HISTOGRAM: { auto m = w.r.histogram<hres>(p, hres(), t); for (int i = 0; i < v; ++i) m->update(10 * v + i); w.histogram(p, t, m); break; }
        case METER: { auto m = w.r.meter<S1, S10, M1>(p, t); m->mark(v); w.meter(p, t, m); break; }
        default: { auto m = w.r.timer<S1, steady, tres, S10, M1>(p, tres(), t); for (int i = 0; i < v; ++i) m->update(std::chrono::microseconds(7 * v + i)); w.timer(p, t, m); break; }
    }
}
const int some_kinds[] = { COUNTER, METER, HISTOGRAM, TIMER };
}

// names: every word in one element, and two elements
SEQ_HARNESS(c18_names)
{
    prom::world w;
    int kind = seq::pick(some_kinds);
    add(w, kind, metric_path(word(1, 2)), {}, 2);
    w.verify();
}
SEQ_HARNESS(c18_long_names, seq::F_THOROUGH)
{
    prom::world w;
    add(w, seq::choose(2) ? COUNTER : TIMER, metric_path(word(3, 3)), { { "t", "v" } }, 2);
    w.verify();
}
SEQ_HARNESS(c18_nested_names)
{
    prom::world w;
    int kind = seq::choose(2) ? COUNTER : TIMER;
    metric_path p = metric_path(word(1, 1)) / metric_path(word(1, 1));
    if (seq::choose(2)) p = p / metric_path("9x");
    add(w, kind, p, { { "t", "v" } }, 2);
    w.verify();
}
// tags: every word as the key, every word as the value
SEQ_HARNESS(c18_tag_keys)
{
    prom::world w;
    int kind = seq::pick(some_kinds);
    add(w, kind, "m", { { word(0, 2), "v" } }, 2);
    w.verify();
}
SEQ_HARNESS(c18_tag_values)
{
    prom::world w;
    int kind = seq::pick(some_kinds);
    std::string v = word(0, kind == COUNTER ? 3 : 2);
    add(w, kind, "m", { { "k", v } }, 2);
    w.verify(false);
}
SEQ_HARNESS(c18_long_tag_values, seq::F_THOROUGH)
{
    prom::world w;
    add(w, COUNTER, "m", { { "k", word(4, 4) } }, 2);
    w.verify(false);
}
SEQ_HARNESS(c18_tag_kinds)
{
    prom::world w;
    int kind = seq::choose(KINDS);
    tag_collection t[] = { {}, { { "k", 1 } }, { { "k", -5 }, { "x", 2.5 } }, { { "k", "x,y=\"z\"" }, { "l", "" }, { "m", 7 } } };
    int n = 1 + seq::choose(4), first = seq::choose(4);
    for (int i = 0; i < n; ++i) add(w, kind, "m", t[(first + i) % 4], i + 1);
    w.verify();
}
// two tags, and words everywhere
SEQ_HARNESS(c18_words)
{
    prom::world w;
    std::string k1 = word(1, 1), k2 = "x" + word(1, 1);
    add(w, COUNTER, metric_path(word(1, 1)), { { k1, word(1, 1) }, { k2, "\\" } }, 2);
    w.verify(false);
}
// tag sets that differ in their values only: series stay apart
SEQ_HARNESS(c18_tag_sets)
{
    prom::world w;
    int kind = seq::choose(2) ? COUNTER : METER;
    std::string a = word(0, 1), b = word(0, 1) + word(0, 1);
    add(w, kind, "m", { { "k", a } }, 1);
    if (a != b) add(w, kind, "m", { { "k", b } }, 2);
    w.verify(false);
}

// values of counters and gauges
namespace
{
template<typename T> void counted(T v) { prom::world w; auto m = w.r.counter<T>("m", T(v)); w.sum("m", {}, m); w.verify(); }
template<typename T> void gauged(T v) { prom::world w; auto m = w.r.gauge<T>("m", T(v), { { "k", "v" } }); w.average("m", { { "k", "v" } }, m); w.verify(); }
}
SEQ_HARNESS(c18_values)
{
    static const int64_t ints[] = { 0, 1, -1, 42, 1000000, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN + 1, 1ll << 53 };
    static const uint64_t uints[] = { 0, 1, UINT32_MAX, 1ull << 63, UINT64_MAX };
    static const double doubles[] = { 0, 0.5, -0.5, 1e-6, 1e15, -1e15, 1e20, 123456.789, 1.0 / 3, 9.9999995, 1e300 };
    switch (seq::choose(8))
    {
        case 0: counted<int64_t>(seq::pick(ints)); break;
        case 1: counted<int32_t>((int32_t)seq::pick(ints)); break;
        case 2: counted<uint64_t>(seq::pick(uints)); break;
        case 3: gauged<double>(seq::pick(doubles)); break;
        case 4: gauged<int64_t>(seq::pick(ints)); break;
        case 5: gauged<float>((float)seq::choose(8) / 4 - 1); break;
        case 6: gauged<uint64_t>(seq::pick(uints)); break;
        default: { auto us = std::chrono::microseconds(seq::pick(ints)); gauged<std::chrono::microseconds>(us); break; }
    }
}

// histograms with all small contents
SEQ_HARNESS(c18_histograms)
{
    prom::world w;
    auto m = w.r.histogram<hres>("m", hres(), { { "k", "v" } });
    int n = seq::choose(6);
    static const int64_t v[] = { 0, 3, -7, 1000000 };
    for (int i = 0; i < n; ++i) m->update(seq::pick(v));
    // the extrema and quantiles of nothing are not specified, but the text is well-formed
    if (!n) { prom::read(w.text()); return; }
    w.histogram("m", { { "k", "v" } }, m);
    w.verify();
}
SEQ_HARNESS(c18_double_histograms)
{
    using R = simple_reservoir<double, 3>;
    prom::world w;
    auto m = w.r.histogram<R>("m", R());
    int n = 1 + seq::choose(4);
    static const double v[] = { 0, 0.25, -3.5, 1e9 };
    for (int i = 0; i < n; ++i) m->update(seq::pick(v));
    w.histogram("m", {}, m);
    w.verify();
}

// registries of several metrics
SEQ_HARNESS(c18_mixtures)
{
    prom::world w;
    const metric_path names[] = { metric_path("a"), metric_path("b"), metric_path("a") / "b" };
    const tag_collection t[] = { {}, { { "k", "v" } }, { { "k", "w\n" }, { "l", "\\" } } };
    for (int i = 0; i < (seq::thorough() ? 3 : 2); ++i)
    {
        int kind = seq::choose(KINDS), sets = 1 + seq::choose(3);
        for (int k = 0; k < sets; ++k) add(w, kind, names[i], t[k], 1 + i + k);
    }
    w.verify();
}
SEQ_HARNESS(c18_many)
{
    prom::world w;
    int n = seq::pick({ 50, 300 });
    for (int i = 0; i < n; ++i) add(w, i % KINDS, metric_path("m") / std::to_string(i / 3 / KINDS) / std::to_string(i % KINDS), { { "i", i % 21 } , { "n", i } }, 1 + i % 5);
    w.verify();
}
SEQ_HARNESS(c18_empty)
{
    prom::world w;
    if (seq::choose(2)) w.r.counter<int>(metric_path(""), 5);
    w.verify();
}

// the state of the stream does not leak into the text
SEQ_HARNESS(c18_streams)
{
    prom::world w;
    int kind = seq::choose(KINDS);
    add(w, kind, "m", { { "k", 12 } }, 12);
    std::string plain = w.text();
    std::ostringstream o;
    switch (seq::choose(6))
    {
        case 0: o << std::hex; break;
        case 1: o << std::setprecision(1); break;
        case 2: o << std::fixed << std::setprecision(1); break;
        case 3: o << std::scientific; break;
        case 4: o << std::showpos; break;
        default: o << std::showbase << std::oct; break;
    }
    w.write(o);
    prom::expectation e;
    for (auto& k : w.known) k(e);
    prom::compare(prom::read(o.str()), e);
}
