// C15: concurrent marks and readers of a moving average, all schedules.  Every mark enters exactly one
// interval, and every reading is what some order of the operations gives.  A mark first completes an interval that is over and
// then enters the new one; if it overlaps another ticking operation it may still enter the old one.  An operation reads the clock
// at some moment between its call and its return, and takes effect at some (maybe other) such moment.
#include <mc.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/time.hpp>
#include <cxxmetrics/ewma.hpp>
#include "ewma_model.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
constexpr int64_t S = 1000000000ll;
enum { MARK, RATE, CRATE, SNAP, CSNAP };
const char* names[] = { "mark", "rate", "rate const", "snapshot", "snapshot const" };

struct rec { int thread, kind; double arg, ret; long call, done; int64_t tlo, thi; };

template<typename E>
struct world
{
    E e;
    ewma_model init;
    rec ops[14];
    int n = 0;
    int64_t times[6];          // all values the clock takes in the concurrent phase
    int nt = 0;
    double tol;

    world(int64_t w, int64_t i, double t = 1e-9) : init(w, i, mc::mc_now()), tol(t) { }

    void now_is() { mc::quiet q; times[nt++] = mc::mc_now(); }

    double run(int kind, double arg = 0)
    {
        rec* r;
        { mc::quiet q; r = &ops[n++]; *r = rec{ mc::mc_tid(), kind, arg, 0, 0, 0, 0, 0 }; }
        mc::mc_call(kind);
        { mc::quiet q; r->call = mc::mc_tick(); r->tlo = mc::mc_now(); }
        double v = 0;
        const E& c = e;
        switch (kind)
        {
        case MARK: e.mark(arg); break;
        case RATE: v = e.rate(); break;
        case CRATE: v = c.rate(); break;
        case SNAP: v = static_cast<double>(e.snapshot().value()); break;
        case CSNAP: v = static_cast<double>(c.snapshot().value()); break;
        }
        mc::mc_ret(kind);
        { mc::quiet q; r->ret = v; r->done = mc::mc_tick(); r->thi = mc::mc_now(); }
        return v;
    }
    // before the concurrent phase
    void setup(int kind, double arg = 0) { if (kind == MARK) { e.mark(arg); init.mark(mc::mc_now(), arg); } else { e.rate(); init.tick_and_read(mc::mc_now()); } }

    bool overlapped(int i) const
    {
        for (int j = 0; j < n; ++j)
            if (j != i && ops[j].kind != CRATE && ops[j].kind != CSNAP && ops[j].call < ops[i].done && ops[i].call < ops[j].done) return true;
        return false;
    }
    // half: marks that have completed the interval, but are not in the new one yet
    bool search(unsigned done, unsigned half, const ewma_model& m)
    {
        bool all = true;
        for (int i = 0; i < n; ++i) if (!(done >> i & 1)) all = false;
        if (all) return true;
        for (int i = 0; i < n; ++i)
        {
            if (done >> i & 1) continue;
            bool first = true;
            for (int j = 0; j < n && first; ++j) if (j != i && !(done >> j & 1) && ops[j].done < ops[i].call) first = false;
            if (!first) continue;
            if (ops[i].kind == MARK && (half >> i & 1 || overlapped(i)))
            {
                ewma_model c(m);
                c.pending += ops[i].arg;
                if (search(done | 1u << i, half, c)) return true;
                if (half >> i & 1) continue;
            }
            for (int k = 0; k < nt; ++k)
            {
                int64_t t = times[k];
                if (t < ops[i].tlo || t > ops[i].thi) continue;
                ewma_model c(m);
                if (ops[i].kind == MARK)
                {
                    c.tick_and_read(t);
                    if (search(done, half | 1u << i, c)) return true;
                    continue;
                }
                // a query may leave the completion of the interval to an operation that it overlaps
                if (ops[i].kind != CRATE && ops[i].kind != CSNAP && overlapped(i) && ewma_model::close(ops[i].ret, m.value(t), tol) && search(done | 1u << i, half, m)) return true;
                long double v = (ops[i].kind == RATE || ops[i].kind == SNAP) ? c.tick_and_read(t) : c.value(t);
                if (ewma_model::close(ops[i].ret, v, tol) && search(done | 1u << i, half, c)) return true;
            }
        }
        return false;
    }
    void verdict()
    {
        mc::quiet q;
        if (search(0, 0, init)) return;
        std::string d;
        for (int i = 0; i < n; ++i)
        {
            char b[160];
            snprintf(b, sizeof b, " [t%d %s(%g)=%.9g @%.1f..%.1f]", ops[i].thread, names[ops[i].kind], ops[i].arg, ops[i].ret, (ops[i].tlo - init.last) / 1e9, (ops[i].thi - init.last) / 1e9);
            d += b;
        }
        mc::fail("no order of the operations explains the rates:%s", d.c_str());
    }
    // afterwards, one thread: the interval is completed and read, so that every mark shows
    void finish(int64_t interval)
    {
        run(CRATE);
        mc::advance(interval); now_is();
        run(RATE);
        run(CRATE);
        mc::advance(interval); now_is();
        run(RATE);
        verdict();
        mc::outcome(std::to_string(ops[n - 3].ret) + "/" + std::to_string(ops[n - 1].ret));
    }
};
using E = ewma<10_sec, 1_sec>;
constexpr int64_t W10 = 10 * S;

// history before the concurrent phase: 0 fresh, 1 marked, 2 seeded, 3 seeded and marked, and the clock at a boundary or not
template<typename W>
void prelude(W& w, int h, bool boundary)
{
    if (h == 1) w.setup(MARK, 3);
    if (h >= 2) { w.setup(MARK, 50); mc::advance(S); w.setup(RATE); }
    if (h == 3) w.setup(MARK, 7);
    mc::advance(boundary ? S : S / 4);
    w.now_is();
}

template<typename A, typename B>
void two(A a, B b)
{
    world<E> w(W10, S);
    int h = mc::choose(4);
    prelude(w, h, mc::choose(2));
    mc::parallel([&] { a(w); }, [&] { b(w); });
    w.finish(S);
}
template<typename A, typename B, typename C>
void three(A a, B b, C c)
{
    world<E> w(W10, S);
    int h = mc::choose(4);
    prelude(w, h, mc::choose(2));
    mc::parallel([&] { a(w); }, [&] { b(w); }, [&] { c(w); });
    w.finish(S);
}
using W = world<E>;
}

MC_HARNESS(c15_mark_mark, 0) { two([](W& w) { w.run(MARK, 10); }, [](W& w) { w.run(MARK, 1000); }); }
MC_HARNESS(c15_mark2_mark, 0) { two([](W& w) { w.run(MARK, 10); w.run(MARK, 200); }, [](W& w) { w.run(MARK, 3000); }); }
MC_HARNESS(c15_mark_read, 0) { int k = 1 + mc::choose(4); two([](W& w) { w.run(MARK, 10); }, [k](W& w) { w.run(k); }); }
MC_HARNESS(c15_mark_read2, 0) { int k = 1 + mc::choose(2); two([](W& w) { w.run(MARK, 10); }, [k](W& w) { w.run(k); w.run(CRATE); }); }
MC_HARNESS(c15_read_read, 0) { int k = 1 + mc::choose(2), l = 1 + mc::choose(2); two([l](W& w) { w.run(l); }, [k](W& w) { w.run(k); }); }
MC_HARNESS(c15_mark_tick, 0)
{
    // the clock passes the boundary while one thread marks
    two([](W& w) { w.run(MARK, 10); }, [](W& w) { mc::advance(S); w.now_is(); w.run(MARK, 1000); });
}
MC_HARNESS(c15_mark_tick_read, 0) { two([](W& w) { w.run(MARK, 10); }, [](W& w) { mc::advance(S); w.now_is(); w.run(RATE); }); }
MC_HARNESS(c15_mark_mark_mark, 0) { three([](W& w) { w.run(MARK, 10); }, [](W& w) { w.run(MARK, 200); }, [](W& w) { w.run(MARK, 3000); }); }
MC_HARNESS(c15_mark_mark_read, 0) { int k = 1 + mc::choose(2); three([](W& w) { w.run(MARK, 10); }, [](W& w) { w.run(MARK, 200); }, [k](W& w) { w.run(k); }); }
MC_HARNESS(c15_mark_mark_clock, 0) { three([](W& w) { w.run(MARK, 10); }, [](W& w) { w.run(MARK, 200); }, [](W& w) { mc::advance(S); w.now_is(); }); }
MC_HARNESS(c15_mark_tick_mark, mc::F_THOROUGH)
{
    three([](W& w) { w.run(MARK, 10); }, [](W& w) { mc::advance(S); w.now_is(); w.run(RATE); }, [](W& w) { w.run(MARK, 200); });
}
MC_HARNESS(c15_weak_cas, mc::F_WEAK_CAS) { two([](W& w) { w.run(MARK, 10); }, [](W& w) { w.run(MARK, 1000); }); }
MC_HARNESS(c15_integral, 0)
{
    using EI = ewma<10_sec, 1_sec, int64_t>;
    world<EI> w(W10, S, 1);
    // sums only: seeding is exact for whole numbers
    mc::advance(S / 4); w.now_is();
    mc::parallel([&] { w.run(MARK, 10); w.run(MARK, 20); }, [&] { w.run(MARK, 3000); }, [&] { w.run(MARK, 100); });
    MC_CHECK(const_cast<const EI&>(w.e).rate() == 3130, "four marks of 3130 in total read as %lld", (long long)const_cast<const EI&>(w.e).rate());
    mc::advance(S);
    MC_CHECK(w.e.rate() == 3130, "four marks of 3130 in total seed %lld", (long long)w.e.rate());
}
MC_MAIN()
