// @engine seq
// C03: a name is bound to one metric type, for all ordered pairs and short sequences of metric types.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <map>
#include <vector>
using namespace cxxmetrics;

namespace
{
int cell = 3;
using reg = metrics_registry<>;
struct metric_kind
{
    const char* text;
    int type;                                                               // equal for equal types
    std::shared_ptr<internal::metric> (*get)(reg&, const metric_path&, const tag_collection&);
    bool (*add)(reg&, const metric_path&, const tag_collection&);
    std::string (*name)();
};

constexpr period::value S1 = period::value(time::seconds(1)), S5 = period::value(time::seconds(5)), M1 = period::value(time::minutes(1)), M5 = period::value(time::minutes(5)), M15 = period::value(time::minutes(15));
using nanos = std::chrono::steady_clock::duration;
using sysdur = std::chrono::system_clock::duration;
using steady = std::chrono::steady_clock;

template<typename T> struct maker { static std::shared_ptr<T> make() { return std::make_shared<T>(); } };
template<typename T, gauges::gauge_aggregation_type A> struct maker<gauge<std::function<T()>, A>> { using G = gauge<std::function<T()>, A>; static std::shared_ptr<G> make() { return std::make_shared<G>(std::function<T()>([] { return T(3); })); } };
template<typename T, gauges::gauge_aggregation_type A> struct maker<gauge<T*, A>> { using G = gauge<T*, A>; static std::shared_ptr<G> make() { return std::make_shared<G>(&cell); } };
template<typename T, gauges::gauge_aggregation_type A> struct maker<gauge<T&, A>> { using G = gauge<T&, A>; static std::shared_ptr<G> make() { return std::make_shared<G>(cell); } };

template<typename T> bool add(reg& r, const metric_path& n, const tag_collection& t) { return r.register_existing(n, maker<T>::make(), t); }
template<typename T> std::string type_of() { return maker<T>::make()->metric_type(); }

#define KIND(text, type, T, ...) { text, type, [](reg& r, const metric_path& n, const tag_collection& t) -> std::shared_ptr<internal::metric> { std::shared_ptr<T> p = __VA_ARGS__; return p; }, &add<T>, &type_of<T> }
template<typename T> using steady_timer_2 = timer<S1, steady, T>;
using ctr64 = counter<int64_t>; using ctr32 = counter<int>; using ctru = counter<uint64_t>;
using g_int = gauge<int>; using g_int_sum = gauge<int, gauges::aggregation_sum>; using g_dbl = gauge<double>;
using g_fn = gauge<std::function<int()>>; using g_fn_sum = gauge<std::function<int()>, gauges::aggregation_sum>;
using g_ptr = gauge<int*>; using g_ptr_sum = gauge<int*, gauges::aggregation_sum>; using g_ref = gauge<int&>; using g_ref_sum = gauge<int&, gauges::aggregation_sum>;
using res4 = simple_reservoir<int64_t, 4>; using res5 = simple_reservoir<int64_t, 5>; using res32 = simple_reservoir<int, 4>; using uni4 = uniform_reservoir<int64_t, 4>;
using h4 = histogram<int64_t, res4>; using h5 = histogram<int64_t, res5>; using h32 = histogram<int, res32>; using hu = histogram<int64_t, uni4>;
using e1 = ewma<M1, S1, double>; using e5 = ewma<M5, S1, double>; using e15 = ewma<M1, S5, double>; using ei = ewma<M1, S1, int64_t>;
using m15 = meter<S1, M1, M5>; using m51 = meter<S1, M5, M1>; using m115 = meter<S1, M1, M1, M5>; using m515 = meter<S1, M5, M1, M5>; using m1 = meter<S1, M1>; using m5s = meter<S5, M1, M5>; using m115b = meter<S1, M1, M15>;
using tres = simple_reservoir<nanos, 4>; using tuni = uniform_reservoir<nanos, 4>;
using t0 = timer<S1, steady, tres>; using tw = timer<S1, steady, tres, M1>; using tw5 = timer<S1, steady, tres, M5>; using tu = timer<S1, steady, tuni>; using t5 = timer<S5, steady, tres>;
using tsys = timer<S1, std::chrono::system_clock, tres>;

const metric_kind kinds[] = {
    KIND("counter<int64>", 0, ctr64, r.counter<int64_t>(n, int64_t(5), t)),
    KIND("gauge<int>", 1, g_int, r.gauge<int>(n, 3, t)),
    KIND("meter<1s,1m,5m>", 2, m15, r.meter<S1, M1, M5>(n, t)),
    KIND("histogram<recent 4>", 3, h4, r.histogram<res4>(n, res4(), t)),
    KIND("gauge<int,sum>", 4, g_int_sum, r.gauge<int, gauges::aggregation_sum>(n, 3, t)),
    KIND("meter<1s,5m,1m>", 2, m51, r.meter<S1, M5, M1>(n, t)),
    // up to here used in longer sequences
    KIND("counter<int>", 5, ctr32, r.counter<int>(n, 5, t)),
    KIND("counter<uint64>", 6, ctru, r.counter<uint64_t>(n, uint64_t(5), t)),
    KIND("gauge<double>", 7, g_dbl, r.gauge<double>(n, 3.0, t)),
    KIND("gauge<function>", 8, g_fn, r.gauge<std::function<int()>>(n, [] { return 3; }, t)),
    KIND("gauge<function,sum>", 9, g_fn_sum, r.gauge<std::function<int()>, gauges::aggregation_sum>(n, [] { return 3; }, t)),
    KIND("gauge<pointer>", 10, g_ptr, r.gauge<int*>(n, &cell, t)),
    KIND("gauge<pointer,sum>", 11, g_ptr_sum, r.gauge<int*, gauges::aggregation_sum>(n, &cell, t)),
    KIND("gauge<reference>", 12, g_ref, r.gauge<int&>(n, cell, t)),
    KIND("gauge<reference,sum>", 13, g_ref_sum, r.gauge<int&, gauges::aggregation_sum>(n, cell, t)),
    KIND("histogram<recent 5>", 14, h5, r.histogram<res5>(n, res5(), t)),
    KIND("histogram<int>", 15, h32, r.histogram<res32>(n, res32(), t)),
    KIND("histogram<uniform>", 16, hu, r.histogram<uni4>(n, uni4(), t)),
    KIND("ewma<1m>", 17, e1, r.ewma<M1>(n, t)),
    KIND("ewma<5m>", 18, e5, r.ewma<M5>(n, t)),
    KIND("ewma<1m,5s>", 19, e15, (r.ewma<M1, S5>(n, t))),
    KIND("ewma<1m,int64>", 20, ei, (r.ewma<M1, S1, int64_t>(n, t))),
    KIND("meter<1s,1m,1m,5m>", 2, m115, r.meter<S1, M1, M1, M5>(n, t)),
    KIND("meter<1s,5m,1m,5m>", 2, m515, r.meter<S1, M5, M1, M5>(n, t)),
    KIND("meter<1s,1m>", 21, m1, r.meter<S1, M1>(n, t)),
    KIND("meter<5s,1m,5m>", 22, m5s, r.meter<S5, M1, M5>(n, t)),
    KIND("meter<1s,1m,15m>", 23, m115b, r.meter<S1, M1, M15>(n, t)),
    KIND("timer", 24, t0, (r.timer<S1, steady, tres>(n, tres(), t))),
    KIND("timer<1m>", 25, tw, (r.timer<S1, steady, tres, M1>(n, tres(), t))),
    KIND("timer<5m>", 26, tw5, (r.timer<S1, steady, tres, M5>(n, tres(), t))),
    KIND("timer<uniform>", 27, tu, (r.timer<S1, steady, tuni>(n, tuni(), t))),
    KIND("timer<5s>", 28, t5, (r.timer<S5, steady, tres>(n, tres(), t))),
    KIND("timer<system clock>", 29, tsys, (r.timer<S1, std::chrono::system_clock, tres>(n, tres(), t))),
};
constexpr int K = sizeof(kinds) / sizeof(kinds[0]);

const tag_collection& tags(int i) { static const tag_collection t[] = { {}, { { "k", 1 } } }; return t[i]; }
const metric_path& path(int i) { static const metric_path p[] = { metric_path("a"), metric_path("b") / metric_path("c") }; return p[i]; }

struct world
{
    reg r;
    struct bound { int kind; std::map<int, std::shared_ptr<internal::metric>> m; };
    std::map<int, bound> model;

    // request name n, tag set t as kind k, by lookup or by registration
    void request(int k, int n, int t, bool adding)
    {
        auto& kind = kinds[k];
        auto b = model.find(n);
        seq::op();
        bool ok = b == model.end() || kinds[b->second.kind].type == kind.type, threw = false, added = false;
        std::shared_ptr<internal::metric> p;
        try
        {
            if (adding) added = kind.add(r, path(n), tags(t));
            else p = kind.get(r, path(n), tags(t));
        }
        catch (const metric_type_mismatch& e)
        {
            threw = true;
            SEQ_CHECK(!ok, "%s of %s rejected although the name is %s", adding ? "registration" : "lookup", kind.text, b == model.end() ? "free" : kinds[b->second.kind].text);
            SEQ_CHECK(e.existing_metric_type() == kinds[b->second.kind].name() && e.desired_metric_type() == kind.name(), "the mismatch of an existing %s and a desired %s names %s and %s", kinds[b->second.kind].text, kind.text, e.existing_metric_type().c_str(), e.desired_metric_type().c_str());
        }
        seq::log("%s %s at %d/%d -> %s", adding ? "register" : "get", kind.text, n, t, threw ? "mismatch" : "ok");
        SEQ_CHECK(ok || threw, "%s of %s accepted although the name is a %s", adding ? "registration" : "lookup", kind.text, kinds[b->second.kind].text);
        if (!ok) { same(); return; }
        if (b == model.end()) b = model.emplace(n, bound{ k, {} }).first;
        auto& slot = b->second.m[t];
        if (adding)
        {
            SEQ_CHECK(added == !slot, "registration of %s %s", kind.text, added ? "replaced a metric" : "failed");
            p = kinds[b->second.kind].get(r, path(n), tags(t));
        }
        SEQ_CHECK(p && (!slot || slot == p), "another %s", kind.text);
        SEQ_CHECK(p->metric_type() == kind.name(), "a %s says it is a %s", kind.text, p->metric_type().c_str());
        slot = p;
        same();
    }
    // the registry holds exactly the model
    void same()
    {
        std::map<std::string, std::string> got, want;
        std::map<std::string, int> children;
        auto handler = [&](const metric_path& p, basic_registered_metric& m)
        {
            got[p.join("/")] = m.type();
            m.visit([&](const tag_collection&, const auto&) { ++children[p.join("/")]; });
        };
        r.visit_registered_metrics(handler);
        for (auto& b : model) want[path(b.first).join("/")] = kinds[b.second.kind].name();
        SEQ_CHECK(got == want, "the registry holds %zu names, expected %zu, or other types", got.size(), want.size());
        for (auto& b : model) SEQ_CHECK(children[path(b.first).join("/")] == (int)b.second.m.size(), "%d tag sets under one name, expected %zu", children[path(b.first).join("/")], b.second.m.size());
    }
};
}

SEQ_HARNESS(c03_pairs)
{
    world w;
    int i = seq::choose(K), j = seq::choose(K);
    bool a1 = seq::choose(2), a2 = seq::choose(2);
    int t = seq::choose(2);
    w.request(i, 0, 0, a1);
    w.request(j, 0, t, a2);
    w.request(i, 0, t, false);
    w.request(i, 0, t, true);
    w.request(j, 1, t, a2);
    w.request(i, 0, 0, false);
}

namespace
{
void sequences(int depth, int tagsets, int ways)
{
    world w;
    for (int d = 0; d < depth; ++d) { int k = seq::choose(6), n = seq::choose(2), t = seq::choose(tagsets); w.request(k, n, t, ways == 2 ? seq::choose(2) : d & 1); }
}
}
SEQ_HARNESS(c03_sequences) { sequences(3, 2, 2); }
SEQ_HARNESS(c03_long_sequences) { sequences(4, 1, 1); }
SEQ_HARNESS(c03_deep_sequences, seq::F_THOROUGH) { sequences(4, 2, 1); }
SEQ_HARNESS(c03_longer_sequences, seq::F_THOROUGH) { sequences(5, 1, 1); }

// distinct types have distinct names
SEQ_HARNESS(c03_names)
{
    int i = seq::choose(K), j = seq::choose(K);
    SEQ_CHECK((kinds[i].name() == kinds[j].name()) == (kinds[i].type == kinds[j].type), "%s and %s have %s names", kinds[i].text, kinds[j].text, kinds[i].name() == kinds[j].name() ? "equal" : "different");
}

// a rejected request leaves the values of the existing metric alone
SEQ_HARNESS(c03_values)
{
    world w;
    int k = seq::choose(K), n = seq::choose(3);
    if (kinds[k].type == 0) return;
    auto c = w.r.counter<int64_t>("a", int64_t(40));
    for (int i = 0; i < n; ++i)
    {
        ++*c;
        bool adding = seq::choose(2), threw = false;
        try { if (adding) kinds[k].add(w.r, "a", tags(seq::choose(2))); else kinds[k].get(w.r, "a", tags(seq::choose(2))); }
        catch (const std::exception& e) { threw = true; SEQ_CHECK(e.what() && *e.what(), "the mismatch says nothing"); }
        SEQ_CHECK(threw, "%s accepted for a counter", kinds[k].text);
        ++*c;
        SEQ_CHECK(c->value() == 42 + 2 * i && w.r.counter<int64_t>("a") == c, "the counter changed to %lld", (long long)c->value());
    }
}
