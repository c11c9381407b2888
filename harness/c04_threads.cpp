// C04: visits while other threads register metrics and update values, all schedules.
#include <mc.hpp>
#include <iostream>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;

namespace
{
using reg = metrics_registry<>;
const metric_path& path(int i) { static const metric_path p[] = { metric_path("a"), metric_path("b"), metric_path("c") }; return p[i]; }
const tag_collection& tags(int i) { static const tag_collection t[] = { {}, { { "k", 1 } }, { { "k", 2 } } }; return t[i]; }

// the counters of a registry: which are registered for certain, which may be, and within which bounds each value is
struct bench
{
    reg r;
    int begun[3][3] = {}, done[3][3] = {};               // registrations
    long low[3][3] = {}, high[3][3] = {};                // bounds of the value
    std::shared_ptr<counter<int64_t>> c[3][3];

    void add(int n, int t)
    {
        mc::mc_call(1);
        { mc::quiet q; begun[n][t]++; }
        auto p = r.counter<int64_t>(path(n), tags(t));
        mc::mc_ret(1);
        mc::quiet q;
        c[n][t] = p;
        done[n][t]++;
    }
    void update(int n, int t, long by)
    {
        mc::mc_call(2);
        counter<int64_t>* p;
        { mc::quiet q; high[n][t] += by; p = c[n][t].get(); }
        *p += by;
        mc::mc_ret(2);
        mc::quiet q;
        low[n][t] += by;
    }
    void visit()
    {
        int before[3][3], outer[3] = {}, inner[3][3] = {};
        long lo[3][3], got[3][3] = {};
        mc::mc_call(3);
        { mc::quiet q; memcpy(before, done, sizeof before); memcpy(lo, low, sizeof lo); }
        auto each = [&](const metric_path& p, basic_registered_metric& m)
        {
            int n = -1;
            { mc::quiet q; for (int i = 0; i < 3; ++i) if (p == path(i)) n = i; MC_CHECK(n >= 0, "a name that was not registered is visited"); ++outer[n]; }
            m.visit([&](const tag_collection& tc, const cumulative_value_snapshot& s)
            {
                mc::quiet q;
                int t = -1;
                for (int i = 0; i < 3; ++i) if (tc == tags(i)) t = i;
                MC_CHECK(t >= 0, "tags that were not registered are visited");
                ++inner[n][t];
                got[n][t] = static_cast<int64_t>(s.value());
            });
        };
        r.visit_registered_metrics(each);
        mc::mc_ret(3);
        mc::quiet q;
        std::string o;
        for (int n = 0; n < 3; ++n)
        {
            int certain = 0, possible = 0;
            for (int t = 0; t < 3; ++t) { certain += before[n][t]; possible += begun[n][t]; }
            MC_CHECK(outer[n] <= 1 && (!certain || outer[n]) && (!outer[n] || possible), "name %d is visited %d times; %d metrics were registered, %d at most", n, outer[n], certain, possible);
            o += std::to_string(outer[n]);
            for (int t = 0; t < 3; ++t)
            {
                MC_CHECK(inner[n][t] <= 1 && (!before[n][t] || inner[n][t]) && (!inner[n][t] || begun[n][t]), "metric %d/%d is visited %d times; registered: %d, begun: %d", n, t, inner[n][t], before[n][t], begun[n][t]);
                if (!inner[n][t]) continue;
                MC_CHECK(got[n][t] >= lo[n][t] && got[n][t] <= high[n][t], "metric %d/%d shows %ld, updates were between %ld and %ld", n, t, got[n][t], lo[n][t], high[n][t]);
                o += ":" + std::to_string(got[n][t]);
            }
        }
        mc::outcome(o);
    }
};

void versus_add(int pre, int n, int t, int visits)
{
    bench b;
    if (pre & 1) b.add(0, 0);
    if (pre & 2) b.add(1, 1);
    if (pre & 4) b.add(0, 1);
    mc::parallel([&] { b.add(n, t); }, [&] { for (int i = 0; i < visits; ++i) b.visit(); });
    b.visit();
}
}

MC_HARNESS(c04_visit_add, 0, 0, 0) { int pre = mc::choose(8), n = mc::choose(3), t = mc::choose(3); versus_add(pre, n, t, 1); }
MC_HARNESS(c04_visits_add, 0, 0, 0) { int pre = mc::choose(4), n = mc::choose(3); versus_add(pre, n, 2, 2); }
MC_HARNESS(c04_visit_adds, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    int t = mc::choose(2);
    mc::parallel([&] { b.add(0, 1); b.add(1, t); }, [&] { b.visit(); });
    b.visit();
}
MC_HARNESS(c04_two_visits, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    int n = mc::choose(2), t = mc::choose(2);
    mc::parallel([&] { b.add(n, t); }, [&] { b.visit(); }, [&] { b.visit(); });
}
MC_HARNESS(c04_visit_adders, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    int n = mc::choose(2), t = mc::choose(2);
    mc::parallel([&] { b.add(n, 1); }, [&] { b.add(1, t); }, [&] { b.visit(); });
    b.visit();
}
MC_HARNESS(c04_visit_updates, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    b.add(0, 1);
    b.add(1, 0);
    mc::parallel([&] { b.update(0, 0, 5); b.update(0, 1, 7); b.update(0, 0, 3); }, [&] { b.visit(); });
    b.visit();
}
MC_HARNESS(c04_visit_updaters, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    b.add(1, 0);
    mc::parallel([&] { b.update(0, 0, 5); b.update(1, 0, 1); }, [&] { b.update(1, 0, 7); }, [&] { b.visit(); });
    b.visit();
}
MC_HARNESS(c04_visit_add_update, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    mc::parallel([&] { b.add(0, 1); b.update(0, 1, 4); }, [&] { b.update(0, 0, 9); }, [&] { b.visit(); });
    b.visit();
}
// each tag set has its own lock-protected map: visits of one registered metric against registrations of its tag sets
MC_HARNESS(c04_visit_one, 0, 0, 0)
{
    bench b;
    b.add(0, 0);
    basic_registered_metric* m = nullptr;
    auto find = [&](const metric_path&, basic_registered_metric& x) { m = &x; };
    b.r.visit_registered_metrics(find);
    int seen[3] = {};
    int before = 0;
    mc::parallel([&] { b.add(0, 1); }, [&] { b.add(0, 2); }, [&]
    {
        mc::mc_call(3);
        { mc::quiet q; before = b.done[0][1] + 2 * b.done[0][2]; }
        m->visit([&](const tag_collection& tc, const auto&) { mc::quiet q; for (int t = 0; t < 3; ++t) if (tc == tags(t)) ++seen[t]; });
        mc::mc_ret(3);
        mc::quiet q;
        MC_CHECK(seen[0] == 1 && seen[1] <= 1 && seen[2] <= 1 && (!(before & 1) || seen[1]) && (!(before & 2) || seen[2]), "tag sets visited %d, %d and %d times", seen[0], seen[1], seen[2]);
        mc::outcome(std::to_string(seen[1]) + std::to_string(seen[2]));
    });
}
MC_HARNESS(c04_three_two, mc::F_PB, 2, 0)
{
    bench b;
    b.add(0, 0);
    mc::parallel([&] { b.add(1, 0); b.update(0, 0, 2); }, [&] { b.add(0, 1); b.add(2, 0); }, [&] { b.visit(); b.visit(); });
    b.visit();
}
// so many names and tag sets that the containers grow while they are visited
namespace
{
tag_collection nth(int i) { return tag_collection({ { "k", i } }); }
void crowd(bool names, int before, int adds)
{
    reg r;
    for (int i = 0; i < before; ++i) *r.counter<int64_t>(names ? metric_path("n") / std::to_string(i) : metric_path("n"), names ? tag_collection() : nth(i)) += i;
    std::vector<int> seen(before + adds, 0);
    mc::parallel(
        [&] { for (int i = before; i < before + adds; ++i) { if (names) r.counter<int64_t>(metric_path("n") / std::to_string(i)); else r.counter<int64_t>(metric_path("n"), nth(i)); } },
        [&] {
            auto each = [&](const metric_path& p, basic_registered_metric& m)
            {
                if (names) { mc::quiet q; ++seen[std::stoi(*++p.begin())]; }
                m.visit([&](const tag_collection& t, const cumulative_value_snapshot& s)
                {
                    mc::quiet q;
                    int i = names ? std::stoi(*++p.begin()) : (int)static_cast<int64_t>(t.begin()->second);
                    if (!names) ++seen[i];
                    MC_CHECK(static_cast<int64_t>(s.value()) == (i < before ? i : 0), "metric %d shows %lld", i, (long long)static_cast<int64_t>(s.value()));
                });
            };
            r.visit_registered_metrics(each);
        });
    for (int i = 0; i < before + adds; ++i) MC_CHECK(seen[i] <= 1 && (i >= before || seen[i]), "metric %d of %d is visited %d times", i, before, seen[i]);
}
}
MC_HARNESS(c04_crowd_names, 0, 0, 0) { crowd(true, 13, 1); }
MC_HARNESS(c04_crowd_tags, 0, 0, 0) { crowd(false, 13, 1); }
MC_HARNESS(c04_crowd_names_two, mc::F_THOROUGH, 0, 0) { crowd(true, 12, 2); }
MC_HARNESS(c04_crowd_tags_two, mc::F_THOROUGH, 0, 0) { crowd(false, 12, 2); }

MC_MAIN()
