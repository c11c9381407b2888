// C25: the object pool under all schedules: objects are never handed out twice, never destroyed while a handle leads to them,
// always destroyed with their last handle, and all storage is returned with the pool.
#include <mc.hpp>
#include <cxxmetrics/pool.hpp>
#include <string>
#include <utility>
using cxxmetrics::internal::pool;
using cxxmetrics::internal::pool_ptr;

namespace
{
int live;                                   // reset by the harness (the engine restores static data)

struct item
{
    long v;
    unsigned tag;
    item(long x = 0) : v(x), tag(0x600d) { count(1); }
    item(const item& o) : v(o.v), tag(0x600d) { o.intact("copied"); count(1); }
    item& operator=(const item& o) { v = o.v; return *this; }
    ~item() { intact("destroyed"); tag = 0xdead; count(-1); }
    void intact(const char* what) const { if (tag != 0x600d) mc::fail("a value is %s after it was destroyed", what); }
    static void count(int d) { mc::quiet q; live += d; }
};
using ptr = pool_ptr<item>;

// one thread's business with a pool: allocates, writes and reads values through its own handles
struct worker
{
    pool<item>* p;
    int id, next = 0;
    ptr h[2];
    long want[2] = { -1, -1 };

    void check(int i)
    {
        if (want[i] < 0) { MC_CHECK(!h[i], "a handle that was dropped is not null"); return; }
        MC_CHECK((bool)h[i], "a handle lost its object");
        h[i]->intact("read");
        MC_CHECK(h[i]->v == want[i], "thread %d reads %ld from its own object instead of %ld", id, h[i]->v, want[i]);
    }
    void allocate(int i)
    {
        long v = id * 100 + next++;
        h[i] = p->allocate(item(v));
        want[i] = v;
        check(i);
    }
    void drop(int i) { h[i] = nullptr; want[i] = -1; }
    void run(const char* prog)
    {
        for (; *prog; ++prog)
        {
            switch (*prog)
            {
            case 'a': allocate(0); break;
            case 'b': allocate(1); break;
            case 'd': drop(0); break;
            case 'e': drop(1); break;
            case 'c': h[1] = h[0]; want[1] = want[0]; break;
            case 'm': h[1] = std::move(h[0]); want[1] = want[0]; want[0] = -1; break;
            case 'w': if (want[0] >= 0) { h[0]->v = want[0] = id * 100 + 50 + next++; if (h[1] == h[0]) want[1] = want[0]; } break;
            }
            check(0);
            check(1);
        }
    }
};

// 'prefill' objects are in the free list when the threads start
template<int N>
void run_private(const char* const (&progs)[N], int prefill)
{
    live = 0;
    {
        pool<item> p;
        {
            ptr f[3];
            for (int i = 0; i < prefill; ++i) f[i] = p.allocate(item(900 + i));
        }
        worker w[N];
        for (int i = 0; i < N; ++i) { w[i].p = &p; w[i].id = i + 1; }
        auto body = [&](int i) { w[i].run(progs[i]); };
        if (N == 2) mc::parallel([&] { body(0); }, [&] { body(1); });
        else mc::parallel([&] { body(0); }, [&] { body(1); }, [&] { body(2); });
        for (int i = 0; i < N; ++i)
            for (int j = i + 1; j < N; ++j)
                for (int a = 0; a < 2; ++a)
                    for (int b = 0; b < 2; ++b)
                        MC_CHECK(!w[i].h[a] || w[i].h[a] != w[j].h[b], "two threads were handed the same object");
        int alive = 0;
        std::string seen;
        for (auto& x : w)
        {
            x.check(0); x.check(1);
            alive += (x.want[0] >= 0) + (x.want[1] >= 0 && x.h[1] != x.h[0]);
        }
        MC_CHECK(live == alive, "%d values are alive instead of %d", live, alive);
        // everything that was given back can be handed out again, once
        ptr again[8];
        for (int i = 0; i < 4; ++i)
        {
            again[i] = p.allocate(item(700 + i));
            for (auto& x : w)
                for (auto& h : x.h) MC_CHECK(!h || h != again[i], "allocate handed out an object that is in use");
            for (int j = 0; j < i; ++j) MC_CHECK(again[j] != again[i], "allocate handed out an object twice");
        }
        for (auto& x : w) { x.check(0); x.check(1); for (auto& h : x.h) seen += h ? '1' : '0'; }
        mc::outcome(seen);
    }
    MC_CHECK(live == 0, "%d values are left when the handles and the pool are gone", live);
}

const char* const pairs[][2] = {
    { "ad", "ad" }, { "a", "a" }, { "ab", "a" }, { "ab", "ab" }, { "abd", "a" }, { "abde", "a" }, { "ada", "ab" }, { "acde", "a" },
    { "amwe", "ad" }, { "abed", "ad" } };
const char* const long_pairs[][2] = {
    { "abded", "ab" }, { "adada", "ada" }, { "abda", "abda" }, { "abdeab", "ab" }, { "acdeab", "abe" }, { "amwea", "awd" } };
const char* const triples[][3] = { { "a", "a", "a" }, { "ad", "a", "a" }, { "abd", "a", "a" }, { "ad", "ad", "a" } };

// handles to one object are copied and dropped by several threads: the last one destroys it, once
void run_shared(int n)
{
    live = 0;
    {
        pool<item> p;
        bool keep = mc::choose(2), reuse = mc::choose(2);
        ptr first = p.allocate(item(5)), own[3];
        for (int i = 0; i < n; ++i) own[i] = first;
        if (!keep) first = nullptr;
        auto body = [&](int i) {
            ptr c(own[i]);
            MC_CHECK((bool)c && c->v == 5, "a copied handle lost the object");
            own[i] = nullptr;
            c->intact("read");
            MC_CHECK(c->v == 5, "the object changed to %ld", c->v);
            ptr d(std::move(c));
            MC_CHECK(d->v == 5, "the object changed to %ld", d->v);
            d = nullptr;
            if (reuse) { ptr e = p.allocate(item(60 + i)); MC_CHECK(e->v == 60 + i, "a new object reads %ld", e->v); }
        };
        if (n == 2) mc::parallel([&] { body(0); }, [&] { body(1); });
        else mc::parallel([&] { body(0); }, [&] { body(1); }, [&] { body(2); });
        MC_CHECK(live == (keep ? 1 : 0), "%d values are alive", live);
        if (keep) { first->intact("read"); MC_CHECK(first->v == 5, "the object changed to %ld", first->v); }
        mc::outcome(keep ? "kept" : "gone");
    }
    MC_CHECK(live == 0, "%d values are left", live);
}

// a handle that several threads exchange: every object goes through it once
void run_exchange(int n, int rounds)
{
    live = 0;
    {
        pool<item> p;
        int initial = mc::choose(2);
        ptr shared;
        if (initial) shared = p.allocate(item(7));
        long got[3][2];
        auto body = [&](int i) {
            for (int r = 0; r < rounds; ++r)
            {
                ptr mine = p.allocate(item(10 * (i + 1) + r));
                ptr old = shared.exchange(mine);
                got[i][r] = 0;
                if (old) { old->intact("read"); got[i][r] = old->v; }
            }
        };
        if (n == 2) mc::parallel([&] { body(0); }, [&] { body(1); });
        else mc::parallel([&] { body(0); }, [&] { body(1); }, [&] { body(2); });
        // what was taken out, and what is left, is exactly what was put in
        long sum = (bool)shared ? shared->v : 0, put = initial ? 7 : 0;
        std::string s;
        for (int i = 0; i < n; ++i)
            for (int r = 0; r < rounds; ++r) { sum += got[i][r]; put += 10 * (i + 1) + r; s += std::to_string(got[i][r]) + " "; }
        MC_CHECK(sum == put, "exchanged values add up to %ld instead of %ld", sum, put);
        MC_CHECK(live == 1, "%d values are alive, but only one can be reached", live);
        mc::outcome(s);
    }
    MC_CHECK(live == 0, "%d values are left", live);
}

// a handle that several threads assign to and exchange: in the end it leads to one object, and everything else is gone
void run_assign(int n)
{
    live = 0;
    {
        pool<item> p;
        ptr shared;
        if (mc::choose(2)) shared = p.allocate(item(7));
        int how[3];
        for (int i = 0; i < n; ++i) how[i] = mc::choose(5);
        auto body = [&](int i) {
            ptr mine = p.allocate(item(10 * (i + 1)));
            switch (how[i])
            {
            case 0: shared = mine; break;
            case 1: shared = std::move(mine); return;
            case 2: shared = nullptr; break;
            case 3: { ptr old = shared.exchange(mine); if (old) old->intact("read"); break; }
            default: shared = p.allocate(item(10 * (i + 1) + 1)); break;
            }
            mine->intact("read");
            MC_CHECK(mine->v == 10 * (i + 1), "an own object reads %ld", mine->v);
        };
        if (n == 2) mc::parallel([&] { body(0); }, [&] { body(1); });
        else mc::parallel([&] { body(0); }, [&] { body(1); }, [&] { body(2); });
        long v = 0;
        if (shared) { shared->intact("read"); v = shared->v; MC_CHECK(v / 10 >= 1 && v / 10 <= n && how[v / 10 - 1] != 2, "the handle leads to %ld", v); }
        MC_CHECK(live == (v ? 1 : 0), "%d values are alive, but only %d can be reached", live, v ? 1 : 0);
        ptr a = p.allocate(item(90)), b = p.allocate(item(91));
        MC_CHECK(a != b && (!shared || (a != shared && b != shared)), "an object was handed out twice");
        mc::outcome(std::to_string(v));
    }
    MC_CHECK(live == 0, "%d values are left", live);
}

// a handle that several threads compare and exchange
void run_cas(int n, bool retry)
{
    live = 0;
    {
        pool<item> p;
        ptr shared = p.allocate(item(1)), expected[3];
        for (int i = 0; i < n; ++i) expected[i] = shared;
        bool won[3] = {};
        auto body = [&](int i) {
            ptr mine = p.allocate(item(10 * (i + 1)));
            won[i] = shared.compare_exchange_strong(expected[i], mine);
            if (!won[i])
            {
                MC_CHECK(expected[i] != mine, "a failed compare_exchange_strong left the new value as the current one");
                if (retry) { mine = p.allocate(item(10 * (i + 1) + 1)); won[i] = shared.compare_exchange_strong(expected[i], mine); }
            }
            mine->intact("read");
            MC_CHECK(mine->v / 10 == i + 1, "an own object reads %ld", mine->v);
        };
        if (n == 2) mc::parallel([&] { body(0); }, [&] { body(1); });
        else mc::parallel([&] { body(0); }, [&] { body(1); }, [&] { body(2); });
        int wins = 0;
        for (int i = 0; i < n; ++i) wins += won[i];
        MC_CHECK(wins >= 1 && (retry || wins == 1), "%d threads replaced the same object", wins);
        for (auto& e : expected) e = nullptr;
        MC_CHECK(live == 1, "%d values are alive, but only one can be reached", live);
        shared->intact("read");
        MC_CHECK(shared->v >= 10 && won[shared->v / 10 - 1], "the handle leads to the object of a thread that did not replace it");
        mc::outcome(std::to_string(shared->v));
        shared = nullptr;
        MC_CHECK(live == 0, "%d values are left without handles", live);
    }
}

// a compare_exchange_strong fails because of an object that is dropped, and its storage reused, at the same time. The handle
// it reports may lead to whatever was current, or to nothing, but must not disturb the objects of others.
void run_cas_reuse(int n, const char* prog)
{
    live = 0;
    {
        pool<item> p;
        ptr shared = p.allocate(item(1)), expected = shared, other = shared;
        ptr kept;
        shared = mc::choose(2) ? p.allocate(item(2)) : shared;
        auto loser = [&] {
            ptr mine = p.allocate(item(10));
            bool won = shared.compare_exchange_strong(expected, mine);
            MC_CHECK(won || expected != mine, "a failed compare_exchange_strong left the new value as the current one");
            mine->intact("read");
            MC_CHECK(mine->v == 10, "an own object reads %ld", mine->v);
            mine = nullptr;
            expected = nullptr;
        };
        auto busy = [&] {
            long v = 20;
            for (const char* c = prog; *c; ++c)
            {
                if (*c == 'x') { ptr mine = p.allocate(item(v++)); shared.exchange(mine); }
                else if (*c == 'c') { ptr mine = p.allocate(item(v++)); shared.compare_exchange_strong(other, mine); other = nullptr; }
                else if (*c == 'n') shared.exchange(nullptr);
                else kept = p.allocate(item(v++));
                if (kept) { kept->intact("read"); MC_CHECK(kept->v == v - 1, "an own object reads %ld", kept->v); }
            }
        };
        if (n == 2) mc::parallel(loser, busy);
        else mc::parallel(loser, busy, [&] { ptr mine = p.allocate(item(30)); mine->intact("read"); MC_CHECK(mine->v == 30, "an own object reads %ld", mine->v); });
        other = nullptr;
        MC_CHECK(live == (bool)shared + (bool)kept, "%d values are alive, but %d can be reached", live, (bool)shared + (bool)kept);
        if (shared) shared->intact("read");
        if (kept) kept->intact("read");
        MC_CHECK(!kept || !shared || kept != shared, "an object was handed out twice");
        mc::outcome(std::to_string(shared ? shared->v : 0) + "/" + std::to_string(kept ? kept->v : 0));
    }
    MC_CHECK(live == 0, "%d values are left", live);
}
const char* const reuse_progs[] = { "xna", "xxa", "xa", "cna", "cxa" };
}

MC_HARNESS(c25_private, mc::F_LEAK, 0, 0)
{
    auto& pr = pairs[mc::choose(sizeof pairs / sizeof *pairs)];
    run_private<2>(pr, mc::choose(3));
}
MC_HARNESS(c25_private_long, mc::F_LEAK | mc::F_PB | mc::F_THOROUGH, 5, 0)
{
    auto& pr = long_pairs[mc::choose(sizeof long_pairs / sizeof *long_pairs)];
    run_private<2>(pr, mc::choose(4));
}
MC_HARNESS(c25_private_three, mc::F_LEAK | mc::F_PB, 3, 0)
{
    auto& pr = triples[mc::choose(sizeof triples / sizeof *triples)];
    run_private<3>(pr, mc::choose(3));
}
MC_HARNESS(c25_shared, mc::F_LEAK, 0, 0) { run_shared(2); }
MC_HARNESS(c25_shared_three, mc::F_LEAK | mc::F_PB, 3, 0) { run_shared(3); }
MC_HARNESS(c25_exchange, mc::F_LEAK, 0, 0) { run_exchange(2, 1); }
MC_HARNESS(c25_exchange_more, mc::F_LEAK | mc::F_PB, 3, 0) { if (mc::choose(2)) run_exchange(3, 1); else run_exchange(2, 2); }
MC_HARNESS(c25_assign, mc::F_LEAK, 0, 0) { run_assign(2); }
MC_HARNESS(c25_assign_three, mc::F_LEAK | mc::F_PB, 2, 0) { run_assign(3); }
MC_HARNESS(c25_cas, mc::F_LEAK, 0, 0) { run_cas(2, mc::choose(2)); }
MC_HARNESS(c25_cas_three, mc::F_LEAK | mc::F_PB, 3, 0) { run_cas(3, mc::choose(2)); }
MC_HARNESS(c25_cas_reuse, mc::F_LEAK | mc::F_PB, 4, 0) { run_cas_reuse(2, reuse_progs[mc::choose(5)]); }
MC_HARNESS(c25_cas_reuse_all, mc::F_LEAK | mc::F_THOROUGH, 0, 0) { run_cas_reuse(2, reuse_progs[0]); }
MC_HARNESS(c25_cas_reuse_three, mc::F_LEAK | mc::F_PB, 3, 0) { run_cas_reuse(3, reuse_progs[mc::choose(5)]); }

MC_MAIN()
