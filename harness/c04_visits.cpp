// @engine seq
// C04: a visit reports every registered name and every tag set exactly once, for all short registration sequences.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <map>
#include <set>
#include <vector>
using namespace cxxmetrics;

namespace
{
using steady = std::chrono::steady_clock;
constexpr period::value S1 = period::value(time::seconds(1)), M1 = period::value(time::minutes(1));
using hres = simple_reservoir<int64_t, 4>;
using tres = simple_reservoir<steady::duration, 4>;
enum { COUNTER, SUM_GAUGE, AVERAGE_GAUGE, FUNCTION, HISTOGRAM, EWMA, METER, TIMER, KINDS };
const char* const kindtext[] = { "counter", "sum gauge", "average gauge", "function gauge", "histogram", "moving average", "meter", "timer" };

const metric_path& path(int i) { static const metric_path p[] = { metric_path("a"), metric_path("b"), metric_path("a") / "b" }; return p[i]; }
const tag_collection& tags(int i) { static const tag_collection t[] = { {}, { { "k", 1 } }, { { "k", 2 }, { "h", "x" } } }; return t[i]; }
const char* const tagtext[] = { "{}", "{k=1}", "{k=2,h=x}" };

// what a snapshot shows, as text; updates: how often the metric was updated with value v
struct state { int kind = 0; int64_t v = 0; int n = 0; };
std::string expected(const state& s)
{
    switch (s.kind)
    {
        case COUNTER: return seq::fmt("sum %lld", (long long)(s.v * s.n));
        case SUM_GAUGE: return seq::fmt("sum %lld", (long long)(s.v + s.n));
        case AVERAGE_GAUGE: case FUNCTION: return seq::fmt("average %lld", (long long)(s.v + s.n));
        case HISTOGRAM: return seq::fmt("histogram %d of %d max %lld", std::min(s.n, 4), s.n, (long long)(s.n ? s.v : 0));
        case EWMA: return seq::fmt("average %lld", (long long)(s.v * s.n));
        case METER: return seq::fmt("meter %lld in 1", (long long)(s.v * s.n));
        default: return seq::fmt("timer %d of %d max %lld, %d in 1", std::min(s.n, 4), s.n, (long long)(s.n ? s.v : 0), s.n);
    }
}
long long whole(const metric_value& v) { return (long long)std::llround(static_cast<long double>(v)); }
size_t rates(const meter_snapshot& m) { size_t n = 0; for (auto& r : m) (void)r, ++n; return n; }
struct shower
{
    std::string& out;
    void operator()(const cumulative_value_snapshot& s) const { out = seq::fmt("sum %lld", whole(s.value())); }
    void operator()(const average_value_snapshot& s) const { out = seq::fmt("average %lld", whole(s.value())); }
    void operator()(const meter_snapshot& s) const { out = seq::fmt("meter %lld in %zu", whole(s.value()), rates(s)); }
    void operator()(const histogram_snapshot& s) const { out = seq::fmt("histogram %zu of %llu max %lld", s.size(), (unsigned long long)s.count(), s.size() ? whole(s.max()) : 0); }
    void operator()(const timer_snapshot& s) const { out = seq::fmt("timer %zu of %llu max %lld, %lld in %zu", s.size(), (unsigned long long)s.count(), s.size() ? whole(s.max()) : 0, whole(s.rate().value()), rates(s.rate())); }
};

struct world
{
    metrics_registry<> r;
    int64_t cells[16];
    int next = 0;
    std::map<int, std::map<int, state>> model;

    void add(int kind, int n, int t, int updates)
    {
        auto name = model.find(n);
        if (name != model.end()) kind = name->second.begin()->second.kind;   // the name's type is fixed
        bool fresh = name == model.end() || !name->second.count(t);
        state& s = model[n][t];
        if (fresh) { s.kind = kind; s.v = 10 * ++next; }
        auto& v = s.v;
        cells[next] = v;
        for (int i = 0; i < updates; ++i) ++s.n;
        seq::log("%s %s %s, %d updates by %lld", kindtext[kind], path(n).join("/").c_str(), tagtext[t], updates, (long long)v);
        switch (kind)
        {
            case COUNTER: { auto m = r.counter<int64_t>(path(n), tags(t)); for (int i = 0; i < updates; ++i) *m += v; break; }
            case SUM_GAUGE: { auto m = r.gauge<int64_t, gauges::aggregation_sum>(path(n), int64_t(v), tags(t)); m->set(v + s.n); break; }
            case AVERAGE_GAUGE: { auto m = r.gauge<int64_t>(path(n), int64_t(v), tags(t)); m->set(v + s.n); break; }
            case FUNCTION: { state* p = &s; r.gauge<std::function<int64_t()>>(path(n), [p] { return p->v + p->n; }, tags(t)); break; }
            case HISTOGRAM: { auto m = r.histogram<hres>(path(n), hres(), tags(t)); for (int i = 0; i < updates; ++i) m->update(v); break; }
            case EWMA: { auto m = r.ewma<M1, S1, double>(path(n), tags(t)); for (int i = 0; i < updates; ++i) m->mark(v); break; }
            case METER: { auto m = r.meter<S1, M1>(path(n), tags(t)); for (int i = 0; i < updates; ++i) m->mark(v); break; }
            default: { auto m = r.timer<S1, steady, tres, M1>(path(n), tres(), tags(t)); for (int i = 0; i < updates; ++i) m->update(steady::duration(v)); break; }
        }
        seq::op();
    }

    // visits everything; stop: throw from the stop-th call of the outer (inner) handler
    void visit(int stop_outer = -1, int stop_inner = -1)
    {
        std::map<std::string, int> names;
        int outer = 0, inner = 0;
        auto each = [&](const metric_path& p, basic_registered_metric& m)
        {
            int n = -1;
            for (int i = 0; i < 3; ++i) if (path(i) == p) n = i;
            SEQ_CHECK(n >= 0 && model.count(n), "an unregistered name %s is visited", p.join("/").c_str());
            SEQ_CHECK(++names[p.join("/")] == 1, "%s is visited twice", p.join("/").c_str());
            if (outer++ == stop_outer) throw 1;
            std::map<int, int> seen;
            m.visit([&](const tag_collection& tc, const auto& snapshot)
            {
                int t = -1;
                for (int i = 0; i < 3; ++i) if (tags(i) == tc) t = i;
                SEQ_CHECK(t >= 0 && model[n].count(t), "%s is visited with tags that were not registered", p.join("/").c_str());
                SEQ_CHECK(++seen[t] == 1, "%s %s is visited twice", p.join("/").c_str(), tagtext[t]);
                std::string got;
                shower { got }(snapshot);
                SEQ_CHECK(got == expected(model[n][t]), "%s %s shows [%s], expected [%s]", p.join("/").c_str(), tagtext[t], got.c_str(), expected(model[n][t]).c_str());
                if (inner++ == stop_inner) throw 2;
            });
            SEQ_CHECK(seen.size() == model[n].size(), "%zu tag sets of %s are visited, %zu registered", seen.size(), p.join("/").c_str(), model[n].size());
        };
        bool threw = false;
        try { r.visit_registered_metrics(each); }
        catch (int) { threw = true; }
        if (!threw) SEQ_CHECK(names.size() == model.size(), "%zu names are visited, %zu registered", names.size(), model.size());
        seq::op();
    }
};

void sequences(int depth, int kinds, int names, int tagsets)
{
    world w;
    for (int i = 0; i < depth; ++i)
    {
        int k = seq::choose(kinds), n = seq::choose(names), t = seq::choose(tagsets), u = seq::choose(2);
        w.add(k, n, t, u);
        w.visit();
    }
    w.visit();
}
}

SEQ_HARNESS(c04_empty) { world w; w.visit(); }
SEQ_HARNESS(c04_kinds) { sequences(2, KINDS, 2, 3); }
SEQ_HARNESS(c04_tags) { sequences(seq::thorough() ? 5 : 4, 2, 1, 3); }
SEQ_HARNESS(c04_names) { sequences(seq::thorough() ? 4 : 3, 2, 3, 3); }
SEQ_HARNESS(c04_all_kinds, seq::F_THOROUGH) { sequences(3, KINDS, 2, 2); }

// a handler that throws leaves the registry usable
SEQ_HARNESS(c04_throwing)
{
    world w;
    int n = 1 + seq::choose(3), t = 1 + seq::choose(3);
    for (int i = 0; i < n; ++i) { int k = i ? seq::choose(2) * HISTOGRAM : seq::choose(KINDS); for (int j = 0; j < t; ++j) w.add(k, i, j, 1); }
    int outer = seq::choose(n + 1), inner = seq::choose(n * t + 1);
    w.visit(outer, inner);
    w.visit();
    for (int i = 0; i < n; ++i) w.add(0, i, 0, 1);
    w.add(0, 2, 2, 2);
    w.visit();
}


// visitors with handlers for some kinds of snapshots only
SEQ_HARNESS(c04_partial_handlers)
{
    world w;
    int k = seq::choose(KINDS), t = 1 + seq::choose(3);
    for (int j = 0; j < t; ++j) w.add(k, 0, j, 1);
    int values = 0, averages = 0, sums = 0, meters = 0, hists = 0, timers = 0;
    auto each = [&](const metric_path&, basic_registered_metric& m)
    {
        m.visit([&](const tag_collection&, const value_snapshot&) { ++values; });
        m.visit([&](const tag_collection&, const average_value_snapshot&) { ++averages; });
        m.visit([&](const tag_collection&, const cumulative_value_snapshot&) { ++sums; });
        m.visit([&](const tag_collection&, const meter_snapshot&) { ++meters; });
        m.visit([&](const tag_collection&, const histogram_snapshot&) { ++hists; });
        m.visit([&](const tag_collection&, const timer_snapshot&) { ++timers; });
    };
    w.r.visit_registered_metrics(each);
    bool avg = k == AVERAGE_GAUGE || k == FUNCTION || k == EWMA, sum = k == COUNTER || k == SUM_GAUGE;
    SEQ_CHECK(sums == (sum ? t : 0), "a handler of sums is called %d times for %d of %s", sums, t, kindtext[k]);
    SEQ_CHECK(averages == (avg || k == METER || k == TIMER ? t : 0), "a handler of averages is called %d times for %d of %s", averages, t, kindtext[k]);
    SEQ_CHECK(values == (sum || avg || k == METER || k == TIMER ? t : 0), "a handler of values is called %d times for %d of %s", values, t, kindtext[k]);
    SEQ_CHECK(meters == (k == METER || k == TIMER ? t : 0), "a handler of meters is called %d times for %d of %s", meters, t, kindtext[k]);
    SEQ_CHECK(hists == (k == HISTOGRAM || k == TIMER ? t : 0), "a handler of histograms is called %d times for %d of %s", hists, t, kindtext[k]);
    SEQ_CHECK(timers == (k == TIMER ? t : 0), "a handler of timers is called %d times for %d of %s", timers, t, kindtext[k]);
}

// many names and many tag sets of one name
SEQ_HARNESS(c04_many)
{
    metrics_registry<> r;
    bool names = seq::choose(2);
    int n = seq::pick({ 1, 13, 14, 100, 3000, names ? 5000 : 150000 });
    for (int i = 0; i < n; ++i)
    {
        if (names) r.counter<int>(metric_path("m") / std::to_string(i), int(i));
        else r.counter<int>("m", int(i), { { "t", i } });
    }
    std::vector<int> seen(n);
    int outer = 0;
    auto each = [&](const metric_path& p, basic_registered_metric& m)
    {
        ++outer;
        m.visit([&](const tag_collection& t, const cumulative_value_snapshot& s)
        {
            int v = static_cast<int>(s.value());
            SEQ_CHECK(v >= 0 && v < n && !seen[v]++, "value %d is visited twice", v);
            if (names) SEQ_CHECK(p.join("/") == "m/" + std::to_string(v), "%s shows %d", p.join("/").c_str(), v);
            else SEQ_CHECK(static_cast<int>(t.begin()->second) == v, "another tag set shows %d", v);
        });
    };
    r.visit_registered_metrics(each);
    for (int i = 0; i < n; ++i) SEQ_CHECK(seen[i] == 1, "metric %d of %d is visited %d times", i, n, seen[i]);
    SEQ_CHECK(outer == (names ? n : 1), "%d names visited", outer);
}
// the handlers that were given are called, not copies of them
namespace
{
struct counting
{
    mutable int n = 0;
    std::unique_ptr<int> own;
    void operator()(const tag_collection&, const value_snapshot&) const { ++n; }
    void operator()(const value_snapshot&) const { ++n; }
};
struct counting_all
{
    int n = 0;
    std::unique_ptr<int> own;
    void operator()(const metric_path&, basic_registered_metric&) { ++n; }
};
}
SEQ_HARNESS(c04_own_state)
{
    metrics_registry<> r;
    int k = seq::choose(2), tags = seq::choose(3), names = 1 + seq::choose(3);
    for (int n = 0; n < names; ++n)
        for (int i = 0; i <= tags; ++i)
        {
            if (k) r.counter<int>("n" + std::to_string(n), 1, { { "t", i } });
            else r.gauge<double>("n" + std::to_string(n), 1., { { "t", i } });
        }
    counting_all all;
    r.visit_registered_metrics(all);
    SEQ_CHECK(all.n == names, "the handler was called %d times for %d names", all.n, names);
    auto each = [&](const metric_path&, basic_registered_metric& m)
    {
        counting c, a;
        m.visit(c);
        m.aggregate(a);
        SEQ_CHECK(c.n == tags + 1 && a.n == 1, "the handlers were called %d times and %d times for %d tag sets", c.n, a.n, tags + 1);
    };
    r.visit_registered_metrics(each);
}

// visitors made by deriving get every snapshot in the case for its kind; timers without a case of their own are given as their
// histogram and their meter
namespace
{
struct parts : snapshot_visitor
{
    std::string got;
    using snapshot_visitor::visit;
    void visit(const average_value_snapshot&) override { got += "a"; }
    void visit(const cumulative_value_snapshot&) override { got += "c"; }
    void visit(const meter_snapshot& m) override { got += seq::fmt("m%lld", (long long)std::distance(m.begin(), m.end())); }
    void visit(const histogram_snapshot& h) override { got += seq::fmt("h%lld", (long long)h.count()); }
};
struct whole_timers : parts
{
    using parts::visit;
    void visit(const timer_snapshot& t) override { got += seq::fmt("t%lld", (long long)t.count()); }
};
}
SEQ_HARNESS(c04_derived_visitors)
{
    int kind = seq::choose(5), n = seq::choose(3);
    bool timers = seq::choose(2);
    parts p;
    whole_timers w;
    snapshot_visitor& v = timers ? static_cast<snapshot_visitor&>(w) : p;
    seq::log("%s, updated %d times, visitor with%s timers", kind == 0 ? "counter" : kind == 1 ? "average" : kind == 2 ? "meter" : kind == 3 ? "histogram" : "timer", n, timers ? "" : "out");
    std::string want;
    if (kind == 0) { counter<int> c(n); v.visit(c.snapshot()); want = "c"; }
    if (kind == 1) { ewma<M1, S1> e; for (int i = 0; i < n; ++i) e.mark(1); v.visit(e.snapshot()); want = "a"; }
    if (kind == 2) { meter<S1, M1> m; for (int i = 0; i < n; ++i) m.mark(1); v.visit(m.snapshot()); want = "m1"; }
    if (kind == 3) { histogram<int64_t, hres> h; for (int i = 0; i < n; ++i) h.update(1); v.visit(h.snapshot()); want = seq::fmt("h%d", n); }
    if (kind == 4) { timer<S1, steady, tres, M1> t; for (int i = 0; i < n; ++i) t.update(std::chrono::nanoseconds(1)); v.visit(t.snapshot()); want = timers ? seq::fmt("t%d", n) : seq::fmt("h%dm1", n); }
    seq::op();
    const std::string& got = timers ? w.got : p.got;
    SEQ_CHECK(got == want, "visited as \"%s\", expected \"%s\"", got.c_str(), want.c_str());
}
