// Self-test of engine A: small programs (number PROG) are explored with partial-order reduction, without it, and
// by an interpreter of their own that enumerates all interleavings.  All three must see the same outcomes.
#include "mc.hpp"
#include <atomic>
#include <cstdlib>
#include <mutex>
#include <set>
#include <string>

enum kind { LOAD, STORE, ADD, CAS, XCHG, LOCKED_ADD, TRY_ADD, CHOICE, WAIT, NKINDS };
struct instr { int kind, var, arg; };
constexpr int MAXT = 3, MAXI = 5, VARS = 2;
struct program { int threads; int len[MAXT]; instr code[MAXT][MAXI]; };

static program decode(unsigned long n)
{
    unsigned long s = n * 0x9E3779B97F4A7C15ul + 12345;
    auto rnd = [&](int k) { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return int((s * 0x2545F4914F6CDD1Dul >> 33) % k); };
    for (int i = 0; i < 4; ++i) rnd(2);
    program p{};
    p.threads = 2 + rnd(2);
    for (int t = 0; t < p.threads; ++t)
    {
        p.len[t] = p.threads == 2 ? 2 + rnd(3) : 1 + rnd(3);
        for (int i = 0; i < p.len[t]; ++i) p.code[t][i] = instr{rnd(NKINDS), rnd(VARS), 1 + rnd(2)};
    }
    return p;
}

struct world
{
    std::atomic<int> v[VARS];
    std::mutex m[VARS];
    int in[VARS];
};

static std::memory_order ORD_L = std::memory_order_acquire, ORD_S = std::memory_order_release;

template<bool Blocking>
static void run(const program& p, world& w, int t, std::string& out)
{
    for (int i = 0; i < p.len[t]; ++i)
    {
        const instr& c = p.code[t][i];
        int r = -1;
        switch (c.kind)
        {
            case LOAD: r = w.v[c.var].load(ORD_L); break;
            case STORE: w.v[c.var].store(c.arg, ORD_S); break;
            case ADD: r = w.v[c.var].fetch_add(c.arg, std::memory_order_acq_rel); break;
            case CAS: { int e = c.arg; r = w.v[c.var].compare_exchange_strong(e, 5 + c.arg) ? 9 : e; break; }
            case XCHG: r = w.v[c.var].exchange(c.arg + 2, std::memory_order_acq_rel); break;
            case LOCKED_ADD: { std::lock_guard<std::mutex> l(w.m[c.var]); r = w.in[c.var]; w.in[c.var] = r + c.arg; break; }
            case TRY_ADD: if (w.m[c.var].try_lock()) { r = w.in[c.var]; w.in[c.var] = r + c.arg; w.m[c.var].unlock(); } break;
            case CHOICE: r = mc::choose(2); break;
            case WAIT: { std::lock_guard<std::mutex> a(w.m[0]); r = w.v[c.var].load(ORD_L); break; }
        }
        mc::quiet q;
        out += std::to_string(r) + ',';
    }
}

static void whole()
{
    program p;
    std::string out[MAXT];
    world w;
    {
        mc::quiet q;
        p = decode(strtoul(getenv("PROG") ? getenv("PROG") : "0", nullptr, 10));
        for (auto& x : w.v) std::atomic_init(&x, 0);
        for (auto& x : w.in) x = 0;
    }
    auto th = [&](int t) { return [&, t] { run<true>(p, w, t, out[t]); }; };
    auto a = th(0), b = th(1), c = th(2);
    if (p.threads == 2) mc::parallel(a, b);
    else mc::parallel(a, b, c);
    mc::quiet q;
    std::string s;
    for (int t = 0; t < p.threads; ++t) s += out[t] + '/';
    for (int i = 0; i < VARS; ++i) s += std::to_string(w.v[i].load()) + ' ' + std::to_string(w.in[i]) + ' ';
    mc::outcome(s);
}

// the reference: one step of a thread is one atomic action; a locked section is three (lock, body, unlock)
namespace ref
{
struct state
{
    int v[VARS] = {}, in[VARS] = {}, held[VARS] = {};
    int pc[MAXT] = {}, sub[MAXT] = {}, tmp[MAXT] = {};
    std::string out[MAXT];
};
static std::set<std::string> seen, outcomes;
static void go(const program& p, const state& s)
{
    std::string key((const char*)s.v, sizeof(int) * (3 * VARS + 3 * MAXT));
    for (int t = 0; t < p.threads; ++t) key += s.out[t] + '/';
    if (!seen.insert(key).second) return;
    bool any = false;
    for (int t = 0; t < p.threads; ++t)
    {
        if (s.pc[t] == p.len[t]) continue;
        const instr& c = p.code[t][s.pc[t]];
        auto finish = [&](state n, int r) { n.sub[t] = 0; n.tmp[t] = 0; n.pc[t]++; n.out[t] += std::to_string(r) + ','; go(p, n); };
        state n = s;
        int& v = n.v[c.var];
        int r = v;
        switch (c.kind)
        {
            case LOAD: finish(n, r); any = true; break;
            case STORE: v = c.arg; finish(n, -1); any = true; break;
            case ADD: v += c.arg; finish(n, r); any = true; break;
            case CAS: if (v == c.arg) { v = 5 + c.arg; r = 9; } finish(n, r); any = true; break;
            case XCHG: v = c.arg + 2; finish(n, r); any = true; break;
            case CHOICE: finish(n, 0); finish(n, 1); any = true; break;
            case LOCKED_ADD: case TRY_ADD: case WAIT:
            {
                int m = c.kind == WAIT ? 0 : c.var;
                if (s.sub[t] == 0)
                {
                    if (s.held[m]) { if (c.kind == TRY_ADD) { finish(n, -1); any = true; } break; }
                    n.held[m] = 1; n.sub[t] = 1; go(p, n);
                }
                else if (s.sub[t] == 1)
                {
                    if (c.kind == WAIT) n.tmp[t] = n.v[c.var];
                    else { n.tmp[t] = n.in[c.var]; n.in[c.var] += c.arg; }
                    n.sub[t] = 2; go(p, n);
                }
                else { n.held[m] = 0; finish(n, s.tmp[t]); }
                any = true;
                break;
            }
        }
    }
    if (any) return;
    std::string o;
    for (int t = 0; t < p.threads; ++t) o += s.out[t] + '/';
    for (int i = 0; i < VARS; ++i) o += std::to_string(s.v[i]) + ' ' + std::to_string(s.in[i]) + ' ';
    outcomes.insert(o);
}
}

MC_HARNESS(reduced) { whole(); }
MC_HARNESS(unreduced, mc::F_PB, 999) { whole(); }
MC_HARNESS(reduced_stale, mc::F_STALE) { whole(); }
MC_HARNESS(unreduced_stale, mc::F_STALE | mc::F_PB, 999) { whole(); }
MC_HARNESS(reduced_relaxed, mc::F_STALE) { ORD_L = ORD_S = std::memory_order_relaxed; whole(); }
MC_HARNESS(unreduced_relaxed, mc::F_STALE | mc::F_PB, 999) { ORD_L = ORD_S = std::memory_order_relaxed; whole(); }

extern "C" char __data_start, _end;
int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "reference")
    {
        for (auto p = strtoul(argv[2], nullptr, 10); p < strtoul(argv[3], nullptr, 10); ++p)
        {
            ref::seen.clear(); ref::outcomes.clear();
            ref::go(decode(p), ref::state());
            printf("%lu", p);
            for (auto& o : ref::outcomes) printf(";%s", o.c_str());
            printf("\n");
        }
        return 0;
    }
    return mc::mc_rt_main(argc, argv, &__data_start, &_end);
}
