// @engine seq
// C02: a name and tag set denote one metric object, for all short sequences of lookups and registrations.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <map>
#include <set>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
// tag sets, each in the listing orders given
struct listing { int set; tag_collection tags; const char* text; };
const listing& tagset(int i)
{
    static const listing all[] = {
        { 0, {}, "{}" },
        { 1, { { "k", 1 } }, "{k=1}" },
        { 2, { { "k", 2 } }, "{k=2}" },
        { 3, { { "k", 1 }, { "h", 2 } }, "{k=1,h=2}" },
        { 3, { { "h", 2 }, { "k", 1 } }, "{h=2,k=1}" },
        { 4, { { "h", 2 } }, "{h=2}" },
        { 5, { { "k", 2 }, { "h", 1 } }, "{k=2,h=1}" },
    };
    return all[i];
}
const metric_path& name(int i)
{
    static const metric_path all[] = { metric_path("a"), metric_path("b"), metric_path("a") / metric_path("b"), metric_path("a/b") };
    return all[i];
}
const char* const nametext[] = { "a", "b", "a>b", "a/b" };

struct world
{
    metrics_registry<> r;
    std::map<std::pair<int, int>, std::pair<std::shared_ptr<counter<int64_t>>, int64_t>> model;
    int64_t next = 100;

    void step(int n, const listing& t, int what)
    {
        auto key = std::make_pair(n, t.set);
        auto old = model.find(key);
        if (what == 2)
        {
            auto mine = std::make_shared<counter<int64_t>>(next);
            bool added = r.register_existing(name(n), mine, t.tags);
            seq::log("register_existing(%s, %s) -> %s", nametext[n], t.text, added ? "added" : "existed");
            SEQ_CHECK(added == (old == model.end()), "register_existing(%s, %s) %s although that name and tag set was %s", nametext[n], t.text, added ? "succeeded" : "failed", added ? "taken" : "free");
            if (added) model[key] = { mine, next };
        }
        else
        {
            auto c = what == 0 ? r.counter<int64_t>(name(n), int64_t(next), t.tags) : t.set == 0 ? r.counter<int64_t>(name(n)) : r.counter<int64_t>(name(n), t.tags);
            seq::log("counter(%s, %s)", nametext[n], t.text);
            SEQ_CHECK(c != nullptr, "counter(%s, %s) is null", nametext[n], t.text);
            if (old == model.end())
            {
                for (auto& m : model) SEQ_CHECK(m.second.first != c, "counter(%s, %s) is the counter of another name or tag set", nametext[n], t.text);
                model[key] = { c, what == 0 ? next : 0 };
            }
            else
                SEQ_CHECK(old->second.first == c, "counter(%s, %s) is not the counter obtained before", nametext[n], t.text);
        }
        next += 100;
        auto& m = model[key];
        m.second += 1;
        ++*m.first;
        seq::op();
    }
    void values()
    {
        for (auto& m : model)
        {
            SEQ_CHECK(m.second.first->value() == m.second.second, "counter (%s, set %d) is %lld, expected %lld", nametext[m.first.first], m.first.second, (long long)m.second.first->value(), (long long)m.second.second);
            // the registry refers to the same object and holds on to it
            tag_collection t;
            for (int i = 0; i < 7; ++i)
                if (tagset(i).set == m.first.second) t = tagset(i).tags;
            SEQ_CHECK(r.counter<int64_t>(name(m.first.first), t) == m.second.first, "(%s, set %d) is another object at the end", nametext[m.first.first], m.first.second);
        }
    }
};

void sequences(int depth, int names, int tags, int whats)
{
    world w;
    for (int i = 0; i < depth; ++i) w.step(seq::choose(names), tagset(seq::choose(tags)), seq::choose(whats));
    w.values();
}
}

SEQ_HARNESS(c02_names) { sequences(3, 4, 5, 3); }
SEQ_HARNESS(c02_tags) { sequences(seq::thorough() ? 5 : 4, 1, 7, 3); }
SEQ_HARNESS(c02_deep) { sequences(seq::thorough() ? 5 : 4, 2, 5, 3); }
SEQ_HARNESS(c02_longer) { sequences(seq::thorough() ? 8 : 6, 1, 3, 3); }

// every pair of tag sets of up to three tags, the second one in every listing order
SEQ_HARNESS(c02_tag_pairs)
{
    const char* const keys[] = { "a", "b", "c", "d" };
    int type = seq::choose(seq::thorough() ? 4 : 2);
    auto value = [&](int v) -> metric_value { switch (type) { case 0: return v; case 1: return std::string(v ? "x" : ""); case 2: return v * 0.5; default: return std::chrono::milliseconds(v); } };
    auto any = [&]
    {
        std::map<std::string, int> t;
        int from = 0;
        for (int n = seq::choose(4); n && from < 4; --n)
        {
            int k = from + seq::choose(4 - from);
            t[keys[k]] = seq::choose(2);
            from = k + 1;
        }
        return t;
    };
    auto listed = [&](std::map<std::string, int> t, bool order)
    {
        std::vector<std::pair<std::string, metric_value>> v;
        while (!t.empty())
        {
            auto i = t.begin();
            if (order) std::advance(i, seq::choose((int)t.size()));
            v.emplace_back(i->first, value(i->second));
            t.erase(i);
        }
        return tag_collection(v);
    };
    auto s = any(), t = any();
    metrics_registry<> r;
    auto a = r.counter<int>("m", listed(s, false)), b = r.counter<int>("m", listed(t, true));
    SEQ_CHECK((a == b) == (s == t), "two %s tag sets denote %s counter", s == t ? "equal" : "different", a == b ? "one" : "another");
    SEQ_CHECK(!r.register_existing("m", std::make_shared<counter<int>>(), listed(t, true)), "an existing tag set was registered again");
}

// many names and tag sets: identities survive the growth of the tables
SEQ_HARNESS(c02_many)
{
    metrics_registry<> r;
    int n = seq::pick({ 1, 2, 7, 13, 14, 40, 120 }), tags = seq::pick({ 1, 2, 13, 14, 30, 60 }), inner = seq::choose(2);
    std::map<std::pair<int, int>, std::shared_ptr<counter<int>>> seen;
    std::set<counter<int>*> objects;
    auto get = [&](int i, int j) { return r.counter<int>(metric_path("m") / std::to_string(i), int(1), tag_collection({ { "t", j }, { "u", "x" } })); };
    if (inner) for (int i = 0; i < n; ++i) for (int j = 0; j < tags; ++j) seen[{ i, j }] = get(i, j);
    else for (int j = 0; j < tags; ++j) for (int i = 0; i < n; ++i) seen[{ i, j }] = get(i, j);
    for (auto& s : seen)
    {
        SEQ_CHECK(get(s.first.first, s.first.second) == s.second, "metric %d with tag %d is another object after %zu registrations", s.first.first, s.first.second, seen.size());
        objects.insert(s.second.get());
        seq::op();
    }
    SEQ_CHECK(objects.size() == seen.size(), "%zu objects for %zu metrics", objects.size(), seen.size());
}

// the other kinds of metrics
namespace
{
struct kind_counter { static auto get(metrics_registry<>& r, const tag_collection& t, int v) { return r.counter<int64_t>("m", int64_t(v), t); } static int64_t first(counter<int64_t>& c) { return c.value(); } };
struct kind_gauge { static auto get(metrics_registry<>& r, const tag_collection& t, int v) { return r.gauge<int>("m", int(v), t); } static int64_t first(gauge<int>& g) { return g.get(); } };
struct kind_sum_gauge { static auto get(metrics_registry<>& r, const tag_collection& t, int v) { return r.gauge<double, gauges::aggregation_sum>("m", double(v), t); } static int64_t first(gauge<double, gauges::aggregation_sum>& g) { return g.get(); } };
struct kind_function { static auto get(metrics_registry<>& r, const tag_collection& t, int v) { return r.gauge<std::function<int()>>("m", [v] { return v; }, t); } static int64_t first(gauge<std::function<int()>>& g) { return g.get(); } };
int cells[3] = { 0, 1, 2 };
struct kind_pointer { static auto get(metrics_registry<>& r, const tag_collection& t, int v) { return r.gauge<int*>("m", &cells[v], t); } static int64_t first(gauge<int*>& g) { return g.get(); } };
struct kind_histogram { using res = simple_reservoir<int64_t, 4>; static auto get(metrics_registry<>& r, const tag_collection& t, int v) { res x; x.update(v); return r.histogram<res>("m", std::move(x), t); }
    static int64_t first(histogram<int64_t, res>& h) { return static_cast<int64_t>(h.snapshot().max()); } };
struct kind_meter { static auto get(metrics_registry<>& r, const tag_collection& t, int) { return r.meter<period::value(time::seconds(1)), period::value(time::minutes(1))>("m", t); } static int64_t first(meter<period::value(time::seconds(1)), period::value(time::minutes(1))>&) { return 1; } };
struct kind_ewma { static auto get(metrics_registry<>& r, const tag_collection& t, int) { return r.ewma<period::value(time::minutes(1))>("m", t); } template<typename E> static int64_t first(E&) { return 1; } };
struct kind_timer { static auto get(metrics_registry<>& r, const tag_collection& t, int) { return r.timer<period::value(time::seconds(1)), std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>>("m", {}, t); } template<typename T> static int64_t first(T&) { return 1; } };

template<typename K>
void kinds()
{
    metrics_registry<> r;
    decltype(K::get(r, tag_collection(), 1)) got[6];
    int first = -1;
    for (int i = 0; i < 4; ++i)
    {
        int j = seq::choose(6), v = 1 + seq::choose(2);
        auto p = K::get(r, tagset(j).tags, v);
        auto& before = got[tagset(j).set];
        SEQ_CHECK(p != nullptr && (!before || before == p), "another object for %s", tagset(j).text);
        if (!before)
        {
            for (auto& g : got) SEQ_CHECK(g != p, "one object for two tag sets");
            SEQ_CHECK(K::first(*p) == v || K::first(*p) == 1, "constructed with %d, value %lld", v, (long long)K::first(*p));
            auto fresh = std::make_shared<typename std::decay<decltype(*p)>::type>(*p);
            SEQ_CHECK(!r.register_existing("m", fresh, tagset(j).tags), "a taken tag set was registered again");
        }
        before = p;
        if (first < 0) first = v;
        seq::op();
    }
}
}

SEQ_HARNESS(c02_counters) { kinds<kind_counter>(); }
SEQ_HARNESS(c02_gauges) { kinds<kind_gauge>(); }
SEQ_HARNESS(c02_sum_gauges) { kinds<kind_sum_gauge>(); }
SEQ_HARNESS(c02_functions) { kinds<kind_function>(); }
SEQ_HARNESS(c02_pointers) { kinds<kind_pointer>(); }
SEQ_HARNESS(c02_histograms) { kinds<kind_histogram>(); }
SEQ_HARNESS(c02_meters) { kinds<kind_meter>(); }
SEQ_HARNESS(c02_ewmas) { kinds<kind_ewma>(); }
SEQ_HARNESS(c02_timers) { kinds<kind_timer>(); }

// registering a null pointer does nothing
SEQ_HARNESS(c02_nothing)
{
    metrics_registry<> r;
    int before = seq::choose(3);
    tag_collection t { { "k", 1 } };
    std::shared_ptr<counter<int64_t>> had;
    if (before == 1) had = r.counter<int64_t>("m", 5, t);
    if (before == 2) r.counter<int64_t>("m", 5);
    std::shared_ptr<counter<int64_t>> none;
    std::shared_ptr<gauge<int>> other;
    bool type = seq::choose(2);
    SEQ_CHECK(!(type ? r.register_existing("m", none, t) : r.register_existing("m", other, t)), "nothing was registered");
    int names = 0;
    auto count = [&](const metric_path&, basic_registered_metric&) { ++names; };
    r.visit_registered_metrics(count);
    seq::op();
    SEQ_CHECK(names == (before ? 1 : 0), "%d names after registering nothing", names);
    auto got = r.counter<int64_t>("m", 7, t);
    SEQ_CHECK(got && got->value() == (before == 1 ? 5 : 7) && (!had || got == had), "the metric afterwards has the value %lld", got ? (long long)got->value() : -1);
}
