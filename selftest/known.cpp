// Self-test of engine A: programs with known answers.  The name says what must be found: ok_* nothing,
// bad_<kind>_* a violation of that kind, n<k>_* exactly k different outcomes.
#include "mc.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

static void out2(int a, int b) { mc::quiet q; mc::outcome(std::to_string(a) + ' ' + std::to_string(b)); }
static void out4(int a, int b, int c, int d) { mc::quiet q; mc::outcome(std::to_string(a) + ' ' + std::to_string(b) + ' ' + std::to_string(c) + ' ' + std::to_string(d)); }
constexpr auto rlx = std::memory_order_relaxed;
constexpr auto acq = std::memory_order_acquire;
constexpr auto rel = std::memory_order_release;
constexpr auto sc = std::memory_order_seq_cst;
struct cells { std::atomic<int> x{0}, y{0}; };

MC_HARNESS(bad_assert_lost_update)
{
    std::atomic<int> x(0);
    auto f = [&] { x.store(x.load() + 1); };
    mc::parallel(f, f);
    MC_CHECK(x.load() == 2, "lost");
}
MC_HARNESS(ok_rmw)
{
    std::atomic<int> x(0);
    auto f = [&] { x.fetch_add(1); };
    mc::parallel(f, f, f);
    MC_CHECK(x.load() == 3, "lost");
}
MC_HARNESS(bad_assert_aba)
{
    // compare-exchange succeeds though the value changed in between
    std::atomic<int> top(1), uses(0);
    int next = 2;
    mc::parallel([&] { int t = top.load(); int n = uses.load(); if (top.compare_exchange_strong(t, 3)) MC_CHECK(uses.load() == n, "aba"); },
                 [&] { top.store(2); uses.store(1); top.store(1); });
    (void)next;
}
MC_HARNESS(bad_deadlock_order)
{
    std::mutex a, b;
    mc::parallel([&] { std::lock_guard<std::mutex> x(a), y(b); }, [&] { std::lock_guard<std::mutex> x(b), y(a); });
}
MC_HARNESS(ok_lock_order)
{
    std::mutex a, b;
    mc::parallel([&] { std::lock_guard<std::mutex> x(a), y(b); }, [&] { std::lock_guard<std::mutex> x(a), y(b); });
}
MC_HARNESS(bad_deadlock_self) { std::mutex a; mc::parallel([&] { a.lock(); a.lock(); }); }
MC_HARNESS(bad_deadlock_self_alone) { std::mutex a; a.lock(); a.lock(); }
MC_HARNESS(bad_livelock_spin) { std::atomic<int> x(0); mc::parallel([&] { while (!x.load()) ; }, [&] { x.load(); }); }
MC_HARNESS(ok_spin) { std::atomic<int> x(0); mc::parallel([&] { while (!x.load()) ; }, [&] { x.store(1); }); }
MC_HARNESS(bad_lockfree_lock, mc::F_LOCKFREE)
{
    std::mutex m;
    mc::parallel_f({mc::T_CRASH, 0}, [&] { std::lock_guard<std::mutex> l(m); }, [&] { std::lock_guard<std::mutex> l(m); });
}
MC_HARNESS(bad_race_plain)
{
    int x = 0;
    mc::parallel([&] { x = 1; }, [&] { x = 2; });
}
MC_HARNESS(bad_race_relaxed_publication)
{
    int data = 0; std::atomic<int> ready(0);
    mc::parallel([&] { data = 1; ready.store(1, rlx); }, [&] { if (ready.load(acq)) { volatile int d = data; (void)d; } });
}
MC_HARNESS(ok_publication)
{
    int data = 0; std::atomic<int> ready(0);
    mc::parallel([&] { data = 1; ready.store(1, rel); }, [&] { if (ready.load(acq)) MC_CHECK(data == 1, "stale"); });
}
MC_HARNESS(ok_publication_stale, mc::F_STALE)
{
    int data = 0; std::atomic<int> ready(0);
    mc::parallel([&] { data = 1; ready.store(1, rel); }, [&] { if (ready.load(acq)) MC_CHECK(data == 1, "stale"); });
}
MC_HARNESS(ok_release_sequence)
{
    int data = 0; std::atomic<int> ready(0);
    mc::parallel([&] { data = 1; ready.store(1, rel); }, [&] { ready.fetch_add(1, rlx); }, [&] { if (ready.load(acq) == 2) { volatile int d = data; (void)d; } });
}
MC_HARNESS(bad_race_broken_release_sequence)
{
    int data = 0; std::atomic<int> ready(0);
    mc::parallel([&] { data = 1; ready.store(1, rel); }, [&] { if (ready.load(rlx) == 1) ready.store(2, rlx); }, [&] { if (ready.load(acq) == 2) { volatile int d = data; (void)d; } });
}
MC_HARNESS(bad_race_use_after_free)
{
    std::atomic<std::atomic<int>*> p(new std::atomic<int>(1));
    mc::parallel([&] { auto q = p.load(); q->load(); }, [&] { auto q = p.exchange(nullptr); delete q; });
}
MC_HARNESS(bad_memory_double_free)
{
    std::atomic<std::atomic<int>*> p(new std::atomic<int>(1));
    auto f = [&] { auto q = p.load(); if (q) { p.store(nullptr); delete q; } };
    mc::parallel(f, f);
}
MC_HARNESS(bad_memory_lost_node, mc::F_LEAK)
{
    std::atomic<int*> p(nullptr);
    auto f = [&] { if (!p.load()) p.store(new int(1)); };
    mc::parallel(f, f);
    delete p.load();
}
// litmus tests: how many different outcomes there are
MC_HARNESS(n3_store_buffer_interleaved) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); a = c.y.load(rlx); }, [&] { c.y.store(1, rlx); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n4_store_buffer_relaxed, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); a = c.y.load(rlx); }, [&] { c.y.store(1, rlx); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n4_store_buffer_acqrel, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rel); a = c.y.load(acq); }, [&] { c.y.store(1, rel); b = c.x.load(acq); }); out2(a, b); }
MC_HARNESS(n3_store_buffer_seqcst, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, sc); a = c.y.load(sc); }, [&] { c.y.store(1, sc); b = c.x.load(sc); }); out2(a, b); }
MC_HARNESS(n4_message_relaxed, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); c.y.store(1, rlx); }, [&] { a = c.y.load(rlx); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n3_message_acqrel, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); c.y.store(1, rel); }, [&] { a = c.y.load(acq); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n4_message_half, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); c.y.store(1, rel); }, [&] { a = c.y.load(rlx); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n3_coherence, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { c.x.store(1, rlx); }, [&] { a = c.x.load(rlx); b = c.x.load(rlx); }); out2(a, b); }
MC_HARNESS(n1_own_writes, mc::F_STALE) { cells c; int a = 0; mc::parallel([&] { c.x.store(1, rlx); a = c.x.load(rlx); }, [&] { c.x.load(rlx); }); out2(a, 0); }
MC_HARNESS(n2_rmw_reads_last, mc::F_STALE) { cells c; int a = 0, b = 0; mc::parallel([&] { a = c.x.fetch_add(1, rlx); }, [&] { b = c.x.fetch_add(1, rlx); }); out2(a, b); }
MC_HARNESS(n16_iriw_acqrel, mc::F_STALE)
{
    cells c; int r[4] = {};
    mc::parallel([&] { c.x.store(1, rel); }, [&] { c.y.store(1, rel); }, [&] { r[0] = c.x.load(acq); r[1] = c.y.load(acq); }, [&] { r[2] = c.y.load(acq); r[3] = c.x.load(acq); });
    out4(r[0], r[1], r[2], r[3]);
}
MC_HARNESS(n15_iriw_seqcst, mc::F_STALE)
{
    cells c; int r[4] = {};
    mc::parallel([&] { c.x.store(1, sc); }, [&] { c.y.store(1, sc); }, [&] { r[0] = c.x.load(sc); r[1] = c.y.load(sc); }, [&] { r[2] = c.y.load(sc); r[3] = c.x.load(sc); });
    out4(r[0], r[1], r[2], r[3]);
}
MC_HARNESS(n2_weak_cas, mc::F_WEAK_CAS) { cells c; int a = 0; mc::parallel([&] { int e = 0; a = c.x.compare_exchange_weak(e, 1); }); out2(a, 0); }
MC_HARNESS(n1_strong_cas, mc::F_WEAK_CAS) { cells c; int a = 0; mc::parallel([&] { int e = 0; a = c.x.compare_exchange_strong(e, 1); }); out2(a, 0); }
MC_HARNESS(n3_crash) { cells c; mc::parallel_f({mc::T_CRASH}, [&] { c.x.store(1); c.y.store(1); }); out2(c.x.load(), c.y.load()); }
// number of interleavings: 2 threads of 3 dependent steps each: 6!/(3!3!) = 20 orders
MC_HARNESS(n20_orders)
{
    std::atomic<int> x(0); int r[2] = {};
    auto f = [&](int t) { return [&, t] { for (int i = 0; i < 3; ++i) r[t] = r[t] * 10 + x.fetch_add(1); }; };
    auto a = f(0), b = f(1);
    mc::parallel(a, b);
    out2(r[0], r[1]);
}
MC_HARNESS(n90_orders)
{
    std::atomic<int> x(0); int r[3] = {};
    auto f = [&](int t) { return [&, t] { for (int i = 0; i < 2; ++i) r[t] = r[t] * 10 + x.fetch_add(1); }; };
    auto a = f(0), b = f(1), c = f(2);
    mc::parallel(a, b, c);
    out4(r[0], r[1], r[2], 0);
}
MC_HARNESS(n6_choices) { int a = mc::choose(2), b = mc::choose(3); out2(a, b); }
MC_MAIN()
