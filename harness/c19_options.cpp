// @engine seq
// C19: the Prometheus text contains exactly what the effective publish options ask for, scaled as they say.
#include "prom.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
using steady = std::chrono::steady_clock;
using hres = simple_reservoir<int64_t, 3>;
using tres = simple_reservoir<steady::duration, 3>;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10)), M1 = period::value(time::minutes(1));
enum { COUNTER, SUM_GAUGE, GAUGE, EWMA, HISTOGRAM, METER, TIMER, KINDS };

void add(prom::world& w, int kind, const metric_path& p, const tag_collection& t, int v)
{
    switch (kind)
    {
        case COUNTER: { auto m = w.r.counter<int64_t>(p, t); *m += v; w.sum(p, t, m); break; }
        case SUM_GAUGE: { auto m = w.r.gauge<double, gauges::aggregation_sum>(p, v + 0.25, t); w.sum(p, t, m); break; }
        case GAUGE: { auto m = w.r.gauge<int>(p, int(v), t); w.average(p, t, m); break; }
        case EWMA: { auto m = w.r.ewma<M1, S1>(p, t); m->mark(v); w.average(p, t, m); break; }
        case HISTOGRAM: { auto m = w.r.histogram<hres>(p, hres(), t); for (int i = 0; i < v; ++i) m->update(10 * v + i); w.histogram(p, t, m); break; }
        case METER: { auto m = w.r.meter<S1, S10, M1>(p, t); m->mark(v); w.meter(p, t, m); break; }
        default: { auto m = w.r.timer<S1, steady, tres, S10, M1>(p, tres(), t); for (int i = 0; i < v; ++i) m->update(std::chrono::microseconds(700 * v + i)); w.timer(p, t, m); break; }
    }
}

using Q1 = quantile_options<75_p>;
using Q2 = quantile_options<99.9_p, 10_p, 99.9_p>;
using Q3 = quantile_options<100_p, 0_p, 50_p>;

struct four { prom::settings v, m, h, t; };

scale_factor scale(prom::settings& s, int c)
{
    static const double f[] = { 1, 0.5, -8, 0.001, 1000, 0 };
    if (!c) return scale_factor();
    s.scaled = true;
    s.factor = f[c - 1];
    return scale_factor(s.factor);
}
value_publish_options value(four& x, int sc) { return value_publish_options(scale(x.v, sc)); }
meter_publish_options meters(four& x, int sc, bool mean) { x.m.mean = mean; return meter_publish_options(mean, scale(x.m, sc)); }
histogram_publish_options histograms(four& x, int sc, bool count, bool dist, int q)
{
    x.h.count = count;
    auto sf = scale(x.h, sc);
    switch (q)
    {
        case 1: x.h.quantiles = { 75 }; return histogram_publish_options(Q1(), count, dist, sf);
        case 2: x.h.quantiles = { 10, 99.9L }; return histogram_publish_options(Q2(), count, dist, sf);
        case 3: x.h.quantiles = { 0, 50, 100 }; return histogram_publish_options(Q3(), count, dist, sf);
        default: return histogram_publish_options(count, dist, sf);
    }
}
timer_publish_options timers(four& x, int sc, bool count, bool mean, bool rates, int q)
{
    x.t.count = count; x.t.mean = mean; x.t.rates = rates;
    auto sf = scale(x.t, sc);
    switch (q)
    {
        case 1: x.t.quantiles = { 75 }; return timer_publish_options(Q1(), rates, count, mean, sf);
        case 2: x.t.quantiles = { 10, 99.9L }; return timer_publish_options(Q2(), rates, count, mean, sf);
        case 3: x.t.quantiles = { 0, 50, 100 }; return timer_publish_options(Q3(), rates, count, mean, sf);
        default: return timer_publish_options(rates, count, mean, sf);
    }
}
const prom::settings& of(const four& f, int what) { return what == prom::world::VALUE ? f.v : what == prom::world::METER ? f.m : what == prom::world::HISTOGRAM ? f.h : f.t; }
// some complete set of options; different for all i
publish_options some(four& f, int i)
{
    f = four();
    return publish_options(value(f, 1 + i % 5), meters(f, 1 + (i + 1) % 5, i & 1), histograms(f, 1 + (i + 2) % 5, !(i & 1), i & 2, i % 4), timers(f, 1 + (i + 3) % 5, i & 2, i & 1, !(i & 1), (i + 1) % 4));
}

// one kind, all combinations of its settings, for the registry or the metric
void combination(int kind)
{
    prom::world w;
    four reg, own;
    four& f = own;
    publish_options o;
    int sc = seq::choose(7);
    switch (kind)
    {
        case COUNTER: case SUM_GAUGE: case GAUGE: case EWMA: o = publish_options(value(f, sc), meters(f, 2, false), histograms(f, 3, false, false, 1), timers(f, 4, false, false, false, 1)); break;
        case METER: { int m = seq::choose(2); o = publish_options(value(f, 2), meters(f, sc, m), histograms(f, 3, false, false, 1), timers(f, 4, !m, !m, !m, 1)); break; }
        case HISTOGRAM: { int c = seq::choose(2), d = seq::choose(2), q = seq::choose(4); o = publish_options(value(f, 2), meters(f, 3, c), histograms(f, sc, c, d, q), timers(f, 4, !c, !c, !c, (q + 1) % 4)); break; }
        default: { int c = seq::choose(2), m = seq::choose(2), r = seq::choose(2), q = seq::choose(4); o = publish_options(value(f, 2), meters(f, 3, !m), histograms(f, 4, !c, false, (q + 1) % 4), timers(f, sc, c, m, r, q)); break; }
    }
    add(w, kind, "a", { { "k", "v" } }, 1 + seq::choose(4));
    add(w, kind, "a", {}, 2);
    add(w, kind, "b", {}, 3);
    bool one = seq::choose(2);
    if (one) w.r.publish_options("a", std::move(o)); else { w.r.publish_options(std::move(o)); reg = own; }
    w.options = [=](const metric_path& p, int what) { return of(one && p == metric_path("a") ? own : reg, what); };
    w.verify();
}
}

SEQ_HARNESS(c19_values) { combination(seq::choose(4)); }
SEQ_HARNESS(c19_histograms) { combination(HISTOGRAM); }
SEQ_HARNESS(c19_meters) { combination(METER); }
SEQ_HARNESS(c19_timers) { combination(TIMER); }

// all sequences of setting options at any level, before and after registering
SEQ_HARNESS(c19_sequences)
{
    prom::world w;
    four none, reg;
    std::map<std::string, four> own;
    std::set<std::string> there;
    bool regset = false;
    int kind = seq::choose(KINDS);
    add(w, kind, "a", {}, 2);
    there.insert("a");
    auto name = [](int i) { return i == 0 ? metric_path("a") : i == 1 ? metric_path("b") : metric_path("a") / "b"; };
    int depth = seq::thorough() ? 5 : 4;
    w.options = [&](const metric_path& p, int what) { auto f = own.find(p.join("/")); return of(f != own.end() ? f->second : regset ? reg : none, what); };
    for (int i = 0; i < depth; ++i)
    {
        int c = seq::choose(6);
        if (c == 0) { seq::log("options %d for all", i); w.r.publish_options(some(reg, i + 1)); regset = true; }
        else if (c <= 3)
        {
            four f;
            auto n = name(c - 1);
            seq::log("options %d for %s", i, n.join("/").c_str());
            w.r.publish_options(n, some(f, i + 1));
            if (there.count(n.join("/"))) own[n.join("/")] = f;
        }
        else
        {
            auto n = name(c - 3);
            seq::log("register %s", n.join("/").c_str());
            if (there.insert(n.join("/")).second) add(w, (kind + c) % KINDS, n, { { "k", i } }, 2 + i);
        }
        w.verify(false);
    }
}

// one metric of every kind, options at both levels
SEQ_HARNESS(c19_mixtures)
{
    prom::world w;
    four reg;
    std::map<std::string, four> own;
    for (int k = 0; k < KINDS; ++k) add(w, k, metric_path("m") / std::to_string(k), { { "k", k } }, 2 + k % 3);
    int set = seq::choose(7);
    if (set) w.r.publish_options(some(reg, set));
    for (int n = 0; n < 2; ++n)
    {
        int k = seq::choose(KINDS), i = seq::choose(7);
        if (!i) continue;
        four f;
        w.r.publish_options(metric_path("m") / std::to_string(k), some(f, i));
        own["m/" + std::to_string(k)] = f;
    }
    w.options = [&](const metric_path& p, int what) { auto f = own.find(p.join("/")); return of(f != own.end() ? f->second : reg, what); };
    w.verify();
}

// close quantiles stay apart
SEQ_HARNESS(c19_close_quantiles)
{
    metrics_registry<> r;
    auto m = r.histogram<hres>("m", hres());
    for (int i = 0; i < 3; ++i) m->update(i);
    using Q = quantile_options<99_p, 99.9_p, 99.99_p, 99.999_p, 99.9999_p, 99.99999_p, 100_p, 0_p, 0.001_p, 0.1_p>;
    if (seq::choose(2)) r.publish_options(publish_options(histogram_publish_options(Q()))); else r.publish_options("m", publish_options(histogram_publish_options(Q(), false)));
    std::ostringstream o;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r);
    p.write(o);
    int n = 0;
    auto page = prom::read(o.str());
    for (auto& s : page.samples) n += s.tags.count("quantile");
    SEQ_CHECK(n == 10, "%d of 10 quantiles are written", n);
}
