// C02: racing lookups and registrations agree on the metric object, all schedules.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;

namespace
{
enum { GET, GET_VALUE, REGISTER };
struct want { int op, name, tags; };
using cptr = std::shared_ptr<counter<int64_t>>;

const metric_path& name(int i) { static const metric_path n[] = { metric_path("a"), metric_path("b") }; return n[i]; }
// tag set 2 in two listing orders
const tag_collection& tags(int i)
{
    static const tag_collection t[] = { {}, { { "k", 1 } }, { { "k", 1 }, { "h", 2 } }, { { "h", 2 }, { "k", 1 } } };
    return t[i];
}
int set_of(int t) { return t == 3 ? 2 : t; }

// every thread carries out its operations; afterwards all must have seen the same objects
template<typename... L>
void program(int pre, std::initializer_list<want> a, std::initializer_list<want> b, std::initializer_list<want> c = {})
{
    metrics_registry<> r;
    struct seen { int name, set, thread; cptr p; bool added, registered; int64_t init; };
    seen s[12];
    int n = 0;
    long updates = 0;
    cptr first;
    if (pre) first = r.counter<int64_t>(name(0), int64_t(1000), tags(pre - 1));
    auto one = [&](const want& w)
    {
        int me;
        { mc::quiet q; me = n++; s[me].name = w.name; s[me].set = set_of(w.tags); s[me].thread = mc::mc_tid(); s[me].registered = w.op == REGISTER; s[me].added = false; s[me].init = 10 * (me + 1); }
        cptr p;
        switch (w.op)
        {
            case GET: p = r.counter<int64_t>(name(w.name), tags(w.tags)); s[me].init = 0; break;
            case GET_VALUE: p = r.counter<int64_t>(name(w.name), int64_t(s[me].init), tags(w.tags)); break;
            default:
            {
                auto mine = std::make_shared<counter<int64_t>>(s[me].init);
                bool added = r.register_existing(name(w.name), mine, tags(w.tags));
                p = added ? mine : r.counter<int64_t>(name(w.name), tags(w.tags));
                mc::quiet q;
                s[me].added = added;
                MC_CHECK(added == (p == mine), "a registration that %s", added ? "succeeded is not in effect" : "failed took effect");
            }
        }
        mc::quiet q;
        MC_CHECK(p != nullptr, "no counter");
        s[me].p = p;
    };
    auto th = [&](std::initializer_list<want> l) { return [&one, l] { for (auto& w : l) one(w); }; };
    auto ta = th(a), tb = th(b), tc = th(c);
    if (c.size()) mc::parallel(ta, tb, tc);
    else mc::parallel(ta, tb);
    for (int i = 0; i < n; ++i) *s[i].p += 1;
    for (int i = 0; i < n; ++i)
    {
        int64_t users = 0, winners = 0, inits = 0;
        bool old = pre && s[i].name == 0 && s[i].set == set_of(pre - 1), initial = false;
        int64_t v = s[i].p->value();
        for (int j = 0; j < n; ++j)
        {
            bool same = s[i].name == s[j].name && s[i].set == s[j].set;
            MC_CHECK((s[i].p == s[j].p) == same, "operations %d and %d got %s counter for %s", i, j, s[i].p == s[j].p ? "one" : "another", same ? "one name and tag set" : "different ones");
            if (!same) continue;
            ++users;
            winners += s[j].added;
            ++inits;
        }
        for (int j = 0; j < n; ++j)
            if (s[i].name == s[j].name && s[i].set == s[j].set && v == s[j].init + users && (!s[j].registered || s[j].added)) initial = true;
        if (old)
        {
            MC_CHECK(s[i].p == first && !winners && v == 1000 + users, "an existing counter was replaced or counts %lld after %lld updates", (long long)v, (long long)users);
            continue;
        }
        MC_CHECK(winners <= 1 && initial, "counter at %lld after %lld updates, %lld registrations succeeded", (long long)v, (long long)users, (long long)winners);
        for (int j = 0; j < 4; ++j)
            if (set_of(j) == s[i].set) MC_CHECK(r.counter<int64_t>(name(s[i].name), tags(j)) == s[i].p, "another object afterwards");
    }
    std::string o;
    for (int i = 0; i < n; ++i) o += char('0' + s[i].added) + std::to_string(s[i].p->value()) + ",";
    mc::outcome(o);
}

// every pair of operations from a list, on fresh and used registries
void pairs(int pre)
{
    static const want ops[] = { { GET, 0, 0 }, { GET_VALUE, 0, 0 }, { REGISTER, 0, 0 }, { GET_VALUE, 0, 1 }, { REGISTER, 0, 1 }, { GET, 0, 2 }, { REGISTER, 0, 3 }, { GET_VALUE, 1, 0 } };
    int a = mc::choose(8), b = a + mc::choose(8 - a);
    program(pre, { ops[a] }, { ops[b] });
}

template<typename F>
void first_lookup(F get)
{
    metrics_registry<> r;
    decltype(get(r)) a, b, c;
    mc::parallel([&] { a = get(r); }, [&] { b = get(r); });
    c = get(r);
    MC_CHECK(a && a == b && a == c, "racing first lookups got different objects");
}
}

MC_HARNESS(c02_pairs_fresh, 0, 0, 0) { pairs(0); }
MC_HARNESS(c02_pairs_existing, 0, 0, 0) { pairs(1); }
MC_HARNESS(c02_pairs_tagged, 0, 0, 0) { pairs(3); }
MC_HARNESS(c02_twice, 0, 0, 0) { program(0, { { GET_VALUE, 0, 0 }, { GET_VALUE, 0, 2 } }, { { REGISTER, 0, 3 }, { GET, 0, 0 } }); }
MC_HARNESS(c02_twice_names, 0, 0, 0) { program(0, { { GET_VALUE, 0, 0 }, { GET_VALUE, 1, 0 } }, { { GET_VALUE, 1, 0 }, { GET_VALUE, 0, 0 } }); }
MC_HARNESS(c02_three_get, mc::F_PB, 3, 0) { program(0, { { GET_VALUE, 0, 1 } }, { { GET_VALUE, 0, 1 } }, { { GET_VALUE, 0, 1 } }); }
MC_HARNESS(c02_three_get_all, mc::F_THOROUGH, 0, 0) { program(0, { { GET_VALUE, 0, 1 } }, { { GET_VALUE, 0, 1 } }, { { GET_VALUE, 0, 1 } }); }
MC_HARNESS(c02_three_tags, 0, 0, 0) { program(1, { { GET_VALUE, 0, 1 } }, { { GET, 0, 2 } }, { { REGISTER, 0, 3 } }); }
MC_HARNESS(c02_three_register, mc::F_PB, 3, 0) { program(0, { { REGISTER, 0, 0 } }, { { REGISTER, 0, 0 } }, { { GET_VALUE, 0, 0 } }); }
MC_HARNESS(c02_three_names, 0, 0, 0) { program(0, { { GET_VALUE, 0, 0 } }, { { GET_VALUE, 1, 0 } }, { { GET_VALUE, 0, 1 } }); }
MC_HARNESS(c02_three_two, mc::F_PB, 2, 0) { program(0, { { GET_VALUE, 0, 0 }, { GET, 0, 1 } }, { { GET_VALUE, 0, 1 }, { GET, 0, 0 } }, { { REGISTER, 0, 0 } }); }
MC_HARNESS(c02_first_gauge, 0, 0, 0) { first_lookup([](metrics_registry<>& r) { return r.gauge<int>("m", 1); }); }
MC_HARNESS(c02_first_histogram, 0, 0, 0) { first_lookup([](metrics_registry<>& r) { return r.histogram<simple_reservoir<int64_t, 2>>("m"); }); }
MC_HARNESS(c02_first_ewma, 0, 0, 0) { first_lookup([](metrics_registry<>& r) { return r.ewma<period::value(time::minutes(1))>("m"); }); }
MC_HARNESS(c02_first_meter, 0, 0, 0) { first_lookup([](metrics_registry<>& r) { return r.meter<period::value(time::seconds(1)), period::value(time::minutes(1))>("m"); }); }
MC_HARNESS(c02_first_timer, 0, 0, 0) { first_lookup([](metrics_registry<>& r) { return r.timer<period::value(time::seconds(1)), std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 2>>("m"); }); }
MC_HARNESS(c02_three_register_4, mc::F_PB | mc::F_THOROUGH, 4, 0) { program(0, { { REGISTER, 0, 0 } }, { { REGISTER, 0, 0 } }, { { GET_VALUE, 0, 0 } }); }
MC_HARNESS(c02_three_two_3, mc::F_PB | mc::F_THOROUGH, 3, 0) { program(0, { { GET_VALUE, 0, 0 }, { GET, 0, 1 } }, { { GET_VALUE, 0, 1 }, { GET, 0, 0 } }, { { REGISTER, 0, 0 } }); }
MC_MAIN()
