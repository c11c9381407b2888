// @engine seq
// C06: publish options carry the settings they were built with through every construction, move and assignment; the effective
// options of a metric are its own, else the registry's, else the defaults; data is found where and as what it was attached.
#include <seq.hpp>
#include <iostream>
#include "pub.hpp"
#include <cxxmetrics/simple_reservoir.hpp>
#include <map>
#include <vector>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
// what options say; percentiles: which quantiles are visited
struct settings
{
    bool scaled = false; double factor = 1;
    bool mean = true;
    bool count = true, dist = false; int quantiles = 0;
    bool rates = true;
};
// sets of quantiles: 0 the default ones
const std::vector<long double>& percentiles(int i) { static const std::vector<long double> p[] = { { 50, 90, 99 }, { 75 }, { 10, 99.9L } }; return p[i]; }

std::string show(const value_publish_options& o) { return seq::fmt("scale %d %g", (int)(bool)o.scale(), o.scale().factor()); }
bool deep = true;   // look at the quantiles
std::string show_quantiles(const histogram_publish_options& o)
{
    if (!deep) return " any";
    // a snapshot of the samples 1..99 shows which quantiles are asked for
    static std::vector<int> v = [] { std::vector<int> r; for (int i = 1; i < 100; ++i) r.push_back(i); return r; }();
    histogram_snapshot s(reservoir_snapshot(v.begin(), v.end(), v.size()), 99);
    std::string r;
    auto q = o.quantiles();
    SEQ_CHECK(q, "no quantiles");
    q->visit(s, [&](quantile q, metric_value&& value) {
        long double x = static_cast<long double>(value);
        SEQ_CHECK(std::fabs(x - q.percentile()) < 0.95L, "the %Lg%% quantile of 1..99 is reported as %Lg", q.percentile(), x);
        r += seq::fmt(" %.2Lf", q.percentile());
    });
    return r;
}
std::string show(const histogram_publish_options& o) { return show(static_cast<const value_publish_options&>(o)) + seq::fmt(" count %d dist %d quantiles", o.include_count(), o.as_distribution()) + show_quantiles(o); }
std::string show(const meter_publish_options& o) { return show(static_cast<const value_publish_options&>(o)) + seq::fmt(" mean %d", o.include_mean()); }
std::string show(const timer_publish_options& o)
{
    return show(static_cast<const histogram_publish_options&>(o)) + seq::fmt(" mean %d rates %d", o.include_mean(), o.include_rates());
}
std::string show(const publish_options& o)
{
    return "values: " + show(o.value_options()) + "; meters: " + show(o.meter_options()) + "; histograms: " + show(o.histogram_options()) + "; timers: " + show(o.timer_options());
}
// the same from settings
std::string want_value(const settings& s) { return seq::fmt("scale %d %g", (int)s.scaled, s.scaled ? s.factor : 1.0); }
std::string want_meter(const settings& s) { return want_value(s) + seq::fmt(" mean %d", s.mean); }
std::string want_histogram(const settings& s)
{
    std::string r = want_value(s) + seq::fmt(" count %d dist %d quantiles", s.count, s.dist);
    for (auto p : percentiles(s.quantiles)) r += seq::fmt(" %.2Lf", p);
    return r;
}
std::string want_timer(const settings& s) { return want_histogram(s) + seq::fmt(" mean %d rates %d", s.mean, s.rates); }

scale_factor scale(settings& s)
{
    int c = seq::choose(4);
    if (!c) return scale_factor();
    s.scaled = true;
    s.factor = c == 1 ? 1.0 : c == 2 ? 0.5 : -8;
    return scale_factor(s.factor);
}
using q1 = quantile_options<75_p>;
using q2 = quantile_options<99.9_p, 10_p, 99.9_p>;   // a set: order and repetition do not matter

value_publish_options make_value(settings& s) { auto sf = scale(s); if (!s.scaled && seq::choose(2)) return value_publish_options(); return value_publish_options(sf); }
meter_publish_options make_meter(settings& s)
{
    auto sf = scale(s);
    switch (seq::choose(4))
    {
        case 0: if (!s.scaled) return meter_publish_options();
        case 1: return meter_publish_options(sf);
        case 2: return meter_publish_options(s.mean = true, sf);
        default: return meter_publish_options(s.mean = false, sf);
    }
}
histogram_publish_options make_histogram(settings& s)
{
    auto sf = scale(s);
    int c = seq::choose(6);
    if (c == 0) return s.scaled ? histogram_publish_options(sf) : histogram_publish_options();
    s.count = seq::choose(2);
    if (c == 1) return histogram_publish_options(s.count, sf);
    s.dist = seq::choose(2);
    if (c == 2) return histogram_publish_options(s.count, s.dist, sf);
    if (c == 3) { s.quantiles = 1; return histogram_publish_options(q1(), s.count, s.dist, sf); }
    if (c == 4) { s.quantiles = 2; return histogram_publish_options(q2(), s.count, s.dist, sf); }
    s.count = true; s.dist = false; s.scaled = false; s.quantiles = 1;
    return histogram_publish_options(q1());
}
timer_publish_options make_timer(settings& s)
{
    auto sf = scale(s);
    int c = seq::choose(6);
    if (c == 0) return timer_publish_options(s.rates = seq::choose(2), sf);
    s.rates = seq::choose(2);
    s.count = seq::choose(2);
    if (c == 1) return timer_publish_options(s.rates, s.count, sf);
    if (c == 2) { s.quantiles = 1; return timer_publish_options(q1(), s.rates, s.count, sf); }
    s.mean = seq::choose(2);
    if (c == 3) return timer_publish_options(s.rates, s.count, s.mean, sf);
    if (c == 4) { s.quantiles = 2; return timer_publish_options(q2(), s.rates, s.count, s.mean, sf); }
    s = settings();
    return timer_publish_options();
}

// moves and assigns a to others in every way, over options of another content
template<typename T, typename Show>
void passed_on(T&& a, T&& other, T&& third, const Show& sh, const std::string& want)
{
    SEQ_CHECK(sh(a) == want, "built as [%s], expected [%s]", sh(a).c_str(), want.c_str());
    T b(std::move(a));
    SEQ_CHECK(sh(b) == want, "constructed from another: [%s], expected [%s]", sh(b).c_str(), want.c_str());
    other = std::move(b);
    SEQ_CHECK(sh(other) == want, "assigned: [%s], expected [%s]", sh(other).c_str(), want.c_str());
    third = std::move(other);
    T c(std::move(third));
    SEQ_CHECK(sh(c) == want, "assigned twice: [%s], expected [%s]", sh(c).c_str(), want.c_str());
    seq::op();
}
}

SEQ_HARNESS(c06_value_settings)
{
    settings s, t, u;
    auto a = make_value(s), b = make_value(t), c = make_value(u);
    value_publish_options copy(a);
    SEQ_CHECK(show(copy) == want_value(s) && show(a) == want_value(s), "copied [%s], expected [%s]", show(copy).c_str(), want_value(s).c_str());
    passed_on(std::move(a), std::move(b), std::move(c), [](const value_publish_options& o) { return show(o); }, want_value(s));
}
SEQ_HARNESS(c06_meter_settings)
{
    settings s, t, u;
    auto a = make_meter(s), b = make_meter(t), c = make_meter(u);
    meter_publish_options copy(a);
    SEQ_CHECK(show(copy) == want_meter(s) && show(a) == want_meter(s), "copied [%s], expected [%s]", show(copy).c_str(), want_meter(s).c_str());
    passed_on(std::move(a), std::move(b), std::move(c), [](const meter_publish_options& o) { return show(o); }, want_meter(s));
}
SEQ_HARNESS(c06_histogram_settings)
{
    settings s, t;
    auto a = make_histogram(s), b = make_histogram(t);
    passed_on(std::move(a), std::move(b), histogram_publish_options(q1(), false, true, scale_factor(3)), [](const histogram_publish_options& o) { return show(o); }, want_histogram(s));
}
SEQ_HARNESS(c06_timer_settings)
{
    settings s, t;
    auto a = make_timer(s), b = make_timer(t);
    passed_on(std::move(a), std::move(b), timer_publish_options(q1(), false, false, false, scale_factor(3)), [](const timer_publish_options& o) { return show(o); }, want_timer(s));
}

// whole sets of options: each kind keeps its own
SEQ_HARNESS(c06_sets)
{
    settings v, m, h, t;
    int which = seq::choose(8);
    publish_options o;
    std::string want;
    auto text = [&] { return "values: " + want_value(v) + "; meters: " + want_meter(m) + "; histograms: " + want_histogram(h) + "; timers: " + want_timer(t); };
    // every constructor; one of the kinds varies over all settings, the others are fixed
    auto fv = [&] { v.scaled = true; v.factor = 2; return value_publish_options(scale_factor(2)); };
    auto fm = [&] { m.scaled = true; m.factor = 3; m.mean = false; return meter_publish_options(false, scale_factor(3)); };
    auto fh = [&] { h.scaled = true; h.factor = 5; h.count = false; h.quantiles = 1; return histogram_publish_options(q1(), false, false, scale_factor(5)); };
    auto ft = [&] { t.scaled = true; t.factor = 7; t.rates = false; t.count = false; return timer_publish_options(false, false, scale_factor(7)); };
    switch (which)
    {
        case 0: break;
        case 1: o = publish_options(make_value(v), fm(), fh(), ft()); break;
        case 2: o = publish_options(fv(), make_meter(m), fh(), ft()); break;
        case 3: o = publish_options(fv(), fm(), make_histogram(h), ft()); break;
        case 4: o = publish_options(fv(), fm(), fh(), make_timer(t)); break;
        case 5: switch (seq::choose(3)) { case 0: o = publish_options(make_meter(m)); break; case 1: o = publish_options(make_meter(m), fh()); break; default: o = publish_options(make_meter(m), fh(), ft()); } break;
        case 6: if (seq::choose(2)) o = publish_options(make_histogram(h)); else o = publish_options(make_histogram(h), ft()); break;
        default: if (seq::choose(2)) o = publish_options(make_timer(t)); else o = publish_options(make_value(v)); break;
    }
    want = text();
    SEQ_CHECK(show(o) == want, "options are [%s], expected [%s]", show(o).c_str(), want.c_str());
    publish_options p(std::move(o)), q(value_publish_options(scale_factor(9)), meter_publish_options(false), histogram_publish_options(q2()), timer_publish_options(false));
    SEQ_CHECK(show(p) == want, "moved options are [%s], expected [%s]", show(p).c_str(), want.c_str());
    q = std::move(p);
    SEQ_CHECK(show(q) == want, "assigned options are [%s], expected [%s]", show(q).c_str(), want.c_str());
    // through a registry, for all metrics or for one
    metrics_registry<> r;
    open_publisher<> pub(r);
    r.counter<int>("a");
    bool one = seq::choose(2);
    if (one) r.publish_options("a", std::move(q)); else r.publish_options(std::move(q));
    pub.visit_one("a", [&](const metric_path&, basic_registered_metric& x) { auto& e = pub.effective_options(x); SEQ_CHECK(show(e) == want, "effective options are [%s], expected [%s]", show(e).c_str(), want.c_str()); });
    std::string def = show(publish_options());
    SEQ_CHECK(show(r.publish_options()) == (one ? def : want), "the registry's options are [%s]", show(r.publish_options()).c_str());
}

// sequences of attaching and looking up
namespace
{
int live = 0;
struct data1 : basic_publish_options { int v; data1(int v = 0) : v(v) { ++live; } ~data1() { --live; } };
struct data2 : basic_publish_options { int v; data2(int v = 0) : v(v) { ++live; } ~data2() { --live; } };
struct derived1 : data1 { derived1(int v = 0) : data1(v) { } };

enum { REGISTRY, A, B, C, PLACES };
const metric_path& path(int p) { static const metric_path n[] = { metric_path("none"), metric_path("a"), metric_path("a") / "b", metric_path("c") }; return n[p]; }
const char* const place[] = { "registry", "a", "a/b", "c" };

struct attach
{
    metrics_registry<> r;
    open_publisher<> p;
    struct cell { bool there = false; void* at = nullptr; int v = 0; };
    cell d[PLACES][3];
    int opts[PLACES] = {};             // number of the options set, 0: none, -1: default ones put in place
    bool exists[PLACES] = { true, true, true, false };
    int fill = 0;

    attach() : p(r) { deep = false; r.counter<int>(path(A)); r.histogram<simple_reservoir<int64_t, 2>>(path(B)); live = 0; }

    template<typename D>
    void get(int where, int k, int v)
    {
        D* got;
        int how = where == REGISTRY ? 0 : 1 + seq::choose(2);
        seq::log("get data %d of %s by way %d", k, place[where], how);
        if (how == 0) got = &p.template get_data<D>(v);
        else if (how == 1) got = p.template get_data_for<D>(path(where), v);
        else { got = nullptr; p.visit_one(path(where), [&](const metric_path&, basic_registered_metric& m) { got = &p.template get_data_for<D>(m, v); }); }
        SEQ_CHECK((got != nullptr) == exists[where], "data of %s is %s", place[where], got ? "made up" : "missing");
        if (!got) return;
        cell& c = d[where][k];
        if (!c.there) { c.there = true; c.at = got; c.v = v; }
        SEQ_CHECK(got == c.at && got->v == c.v, "data %d of %s is %d, expected %d%s", k, place[where], got->v, c.v, got == c.at ? "" : ", and another object");
        SEQ_CHECK(typeid(*got) == typeid(D), "data of another type");
    }
    template<typename D>
    void has(int where, int k)
    {
        bool h1 = p.template has_data_for<D>(path(where)), h2 = false;
        bool visited = false;
        p.visit_one(path(where), [&](const metric_path& n, basic_registered_metric& m) { visited = true; SEQ_CHECK(n == path(where), "another name is visited"); h2 = p.template has_data_for<D>(m); });
        SEQ_CHECK(visited == exists[where] && p.has_metric(path(where)) == exists[where], "%s %s", place[where], exists[where] ? "is not visited" : "is visited though it does not exist");
        SEQ_CHECK(h1 == d[where][k].there && h2 == h1, "data %d of %s: %d by name, %d by metric, expected %d", k, place[where], h1, h2, d[where][k].there);
    }
    publish_options make(int n) const { return publish_options(value_publish_options(scale_factor(n)), meter_publish_options(n & 1, scale_factor(n)), histogram_publish_options(n & 1, scale_factor(n)), timer_publish_options(n & 1, scale_factor(n))); }
    std::string text(int n) const { return show(n > 0 ? make(n) : publish_options()); }

    void set(int where, int n)
    {
        seq::log("options %d for %s", n, place[where]);
        if (where == REGISTRY) r.publish_options(make(n)); else r.publish_options(path(where), make(n));
        if (exists[where]) opts[where] = n;
    }
    void look()
    {
        SEQ_CHECK(show(r.publish_options()) == text(opts[REGISTRY]), "the registry's options are [%s], expected [%s]", show(r.publish_options()).c_str(), text(opts[REGISTRY]).c_str());
        for (int i = A; i < PLACES; ++i)
        {
            p.visit_one(path(i), [&](const metric_path&, basic_registered_metric& m) {
                auto& e = p.effective_options(m);
                int n = opts[i] ? opts[i] : opts[REGISTRY];
                SEQ_CHECK(show(e) == text(n), "options of %s are [%s], expected [%s]", place[i], show(e).c_str(), text(n).c_str());
                auto& again = p.effective_options(m);
                SEQ_CHECK(&again == &e, "the effective options move");
            });
            has<data1>(i, 0);
            has<data2>(i, 1);
            has<derived1>(i, 2);
            SEQ_CHECK(p.template has_data_for<publish_options>(path(i)) == (opts[i] != 0), "options of %s found: %d", place[i], !opts[i]);
        }
        int n = 0;
        for (auto& row : d) for (auto& c : row) n += c.there;
        SEQ_CHECK(live == n, "%d data objects, %d attached", live, n);
    }
    void step(int i, int choices)
    {
        switch (seq::choose(choices))
        {
            case 0: get<data1>(seq::choose(PLACES), 0, 10 + i); break;
            case 1: set(seq::choose(PLACES), 2 + i); break;
            case 2: get<data2>(seq::choose(PLACES), 1, 20 + i); break;
            case 3: seq::log("register c"); r.counter<int>(path(C)); exists[C] = true; break;
            case 4: get<derived1>(seq::choose(PLACES), 2, 30 + i); break;
            case 5: { int w = 1 + seq::choose(2); seq::log("default options for %s", place[w]); auto* o = p.template get_data_for<publish_options>(path(w)); SEQ_CHECK(show(*o) == text(opts[w]), "options got from %s", place[w]); if (!opts[w]) opts[w] = -1; break; }
            default: seq::log("register others"); for (int k = 0; k < 20; ++k) r.counter<int>(metric_path("x") / std::to_string(fill++)); break;
        }
        look();
        seq::op();
    }
};
}
SEQ_HARNESS(c06_sequences) { { attach a; a.look(); for (int i = 0; i < 3; ++i) a.step(i, 7); } SEQ_CHECK(live == 0, "%d data objects remain", live); }
SEQ_HARNESS(c06_long_sequences) { { attach a; for (int i = 0; i < 4; ++i) a.step(i, 4); } SEQ_CHECK(live == 0, "%d data objects remain", live); }

// metric types as publishers see them
SEQ_HARNESS(c06_types)
{
    constexpr period::value S = period::value(time::seconds(1)), M = period::value(time::minutes(1));
    metrics_registry<> r;
    open_publisher<> p(r);
    int k = seq::choose(9);
    const char* want[] = { "counter", "counter", "gauge", "gauge", "histogram", "histogram", "ewma", "meter", "timer" };
    switch (k)
    {
        case 0: r.counter<int64_t>("m"); break;
        case 1: r.counter<double>("m", 1.0); break;
        case 2: r.gauge<int>("m", 1); break;
        case 3: r.gauge<std::function<double()>, gauges::aggregation_sum>("m", [] { return 1.0; }); break;
        case 4: r.histogram("m", simple_reservoir<int64_t, 2>()); break;
        case 5: r.histogram("m", uniform_reservoir<double, 2>()); break;
        case 6: r.ewma<M>("m"); break;
        case 7: r.meter<S, M, S>("m"); break;
        default: r.timer<S, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 2>, M>("m"); break;
    }
    std::string a = p.metric_type("m"), b;
    p.visit_one("m", [&](const metric_path&, basic_registered_metric& m) { b = p.metric_type(m); });
    SEQ_CHECK(a == b && a.find(want[k]) != std::string::npos, "the type of a %s is called '%s', '%s'", want[k], a.c_str(), b.c_str());
    for (int i = 0; i < 9; ++i) if (std::string(want[i]) != want[k]) SEQ_CHECK(a.find(want[i]) == std::string::npos, "the type of a %s is called '%s'", want[k], a.c_str());
    SEQ_CHECK(p.metric_type("n").empty(), "a type for a name that is not registered");
}
SEQ_HARNESS(c06_all_sequences_of_four, seq::F_THOROUGH) { { attach a; for (int i = 0; i < 4; ++i) a.step(i, 7); } SEQ_CHECK(live == 0, "%d data objects remain", live); }
