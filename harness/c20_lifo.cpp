// C20: the lock-free stack under all schedules.
#include <mc.hpp>
#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <map>
using cxxmetrics::internal::atomic_lifo;

namespace
{
int live;                                   // reset by the harness (the engine restores static data)

// an element of the stack which counts its instances
struct item
{
    int v;
    item(int x = 0) : v(x) { count(1); }
    item(const item& o) : v(o.v) { count(1); }
    item(item&& o) : v(o.v) { o.v = -1; count(1); }
    ~item() { count(-1); }
    static void count(int d) { mc::quiet q; live += d; }
};

// a node type of the user's, with its own link
struct own_node
{
    int v;
    std::atomic<own_node*> link;
    own_node(int x) : v(x), link(nullptr) { item::count(1); }
    own_node(const own_node& o) : v(o.v), link(o.link.load(std::memory_order_relaxed)) { item::count(1); }
    ~own_node() { item::count(-1); }
    own_node* next() { return link.load(std::memory_order_relaxed); }
    void set_next(own_node* n) { link.store(n, std::memory_order_relaxed); }
    operator int&() { return v; }
    operator const int&() const { return v; }
};

int value(const item& i) { return i.v; }
int value(const own_node& n) { return n.v; }
int value(const int& n) { return n; }

enum { PUSH, POP };
struct stack_model
{
    int a[12], n = 0;
    bool step(const mc::op_rec& o)
    {
        if (o.code == PUSH) { a[n++] = (int)o.arg; return true; }
        if (!o.done) { if (n) --n; return true; }
        if (o.ret == 0) return n == 0;
        if (!n || a[n - 1] != o.ret) return false;
        --n;
        return true;
    }
};

template<typename T>
struct bench
{
    using lifo = atomic_lifo<T>;
    using ptr = typename lifo::pointer_type;
    lifo s;
    mc::history<16> h;
    ptr kept[16];
    int nkept = 0;

    template<typename U> void do_push(int v, U*) { s.push(U(v)); }
    void do_push(int v, own_node*) { s.push(s.make_pointer(v)); }
    void push(int v)
    {
        auto o = h.begin(PUSH, v);
        do_push(v, (T*)nullptr);
        h.end(o);
    }
    void emplace(int v)
    {
        auto o = h.begin(PUSH, v);
        s.emplace(v);
        h.end(o);
    }
    // popped nodes stay allocated until the end: see c20_pop_free for the others
    int slot() { mc::quiet q; return nkept++; }
    int pop()
    {
        int k = slot();
        auto o = h.begin(POP);
        kept[k] = s.pop();
        int r = kept[k] ? value(*kept[k]) : 0;
        h.end(o, r);
        return k;
    }
    void push_back(int k)
    {
        if (!kept[k]) return;
        int v = value(*kept[k]);
        auto o = h.begin(PUSH, v);
        s.push(std::move(kept[k]));
        h.end(o);
        mc::quiet q;
        MC_CHECK(!kept[k], "a pushed pointer still owns its node");
    }
    void finish()
    {
        // the rest of the stack, popped by one thread, continues the history
        for (int i = 0; i < 8; ++i)
        {
            auto o = &h.ops[h.n++];
            *o = mc::op_rec();
            o->code = POP;
            o->call = mc::mc_tick() + 1000 + 2 * i;
            auto p = s.pop();
            o->ret = p ? value(*p) : 0;
            o->done = o->call + 1;
            if (!p) break;
        }
        bool ok = mc::linearizable(h.ops, h.n, stack_model(), [](stack_model& m, const mc::op_rec& o) { return m.step(o); });
        std::string t;
        for (int i = 0; i < h.n; ++i)
            t += (h.ops[i].code == PUSH ? " push(" + std::to_string(h.ops[i].arg) : " pop(") + ")=" + std::to_string(h.ops[i].ret) + "@t" + std::to_string(h.ops[i].thread);
        MC_CHECK(ok, "no order of the operations explains:%s", t.c_str());
        mc::outcome(t);
    }
};

struct counted
{
    counted() { live = 0; }
    ~counted() { mc::quiet q; MC_CHECK(live == 0, "%d elements are still alive after the stack is gone (negative: destroyed twice)", live); }
};

// the initial stack 1..n, then the programs; upper case: 'U' push, 'O' pop, 'B' push the last popped node back, 'A' the one before, 'E' emplace
template<typename T>
void program(bench<T>& b, int base, const char* p)
{
    int last = -1, before = -1;
    for (int i = 0; p[i]; ++i)
        switch (p[i])
        {
        case 'U': b.push(base + i); break;
        case 'E': b.emplace(base + i); break;
        case 'O': before = last; last = b.pop(); break;
        case 'B': b.push_back(last); break;
        case 'A': if (before >= 0) b.push_back(before); break;
        }
}
template<typename T>
void run(int pre, const char* p1, const char* p2, const char* p3 = nullptr)
{
    counted c;
    bench<T> b;
    for (int i = 1; i <= pre; ++i) b.push(i);
    auto f1 = [&] { program(b, 10, p1); };
    auto f2 = [&] { program(b, 20, p2); };
    if (p3) { auto f3 = [&] { program(b, 30, p3); }; mc::parallel(f1, f2, f3); }
    else mc::parallel(f1, f2);
    b.finish();
}
}

#define FAMILY(T, F) \
    MC_HARNESS(c20_##T##_push_push, F) { run<T>(mc::choose(2), "U", "U"); } \
    MC_HARNESS(c20_##T##_push_pop, F) { run<T>(mc::choose(3), "U", "O"); } \
    MC_HARNESS(c20_##T##_pop_pop, F) { run<T>(mc::choose(4), "O", "O"); } \
    MC_HARNESS(c20_##T##_2_2, F) { int p = mc::choose(3), q = mc::choose(5); \
        static const char* const prog[][2] = { { "UO", "UO" }, { "OU", "UO" }, { "OO", "UU" }, { "UU", "EE" }, { "OO", "OO" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_3, F) { int p = mc::choose(3), q = mc::choose(4); \
        static const char* const prog[][3] = { { "U", "O", "O" }, { "U", "U", "O" }, { "O", "O", "O" }, { "U", "E", "U" } }; run<T>(p, prog[q][0], prog[q][1], prog[q][2]); } \
    MC_HARNESS(c20_##T##_reuse, F) { int p = 1 + mc::choose(3), q = mc::choose(4); \
        static const char* const prog[][2] = { { "O", "OOB" }, { "OB", "OB" }, { "O", "OB" }, { "OU", "OBO" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_reuse_aba, F) { int p = 1 + mc::choose(3), q = mc::choose(3); \
        static const char* const prog[][2] = { { "OB", "OOB" }, { "OBOB", "OB" }, { "OOB", "OUB" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_reuse_two, F) { int p = 1 + mc::choose(3), q = mc::choose(6); \
        static const char* const prog[][2] = { { "O", "OOUA" }, { "U", "OOUA" }, { "O", "OUUB" }, { "O", "OOAB" }, { "OO", "OOUA" }, { "OB", "OOUA" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_reuse_many, F | mc::F_THOROUGH) { int p = 1 + mc::choose(3), q = mc::choose(5); \
        static const char* const prog[][2] = { { "O", "OOUAOUA" }, { "OU", "OOAUB" }, { "OB", "OOUAOB" }, { "OBOB", "OOUA" }, { "OOA", "OOUAB" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_3_reuse, F) { int p = 1 + mc::choose(2), q = mc::choose(3); \
        static const char* const prog[][3] = { { "O", "OB", "O" }, { "OB", "OB", "U" }, { "O", "OB", "U" } }; run<T>(p, prog[q][0], prog[q][1], prog[q][2]); } \
    MC_HARNESS(c20_##T##_3_3, F) { int p = mc::choose(2), q = mc::choose(3); \
        static const char* const prog[][2] = { { "UOU", "OUO" }, { "UUO", "UOO" }, { "OOO", "UUU" } }; run<T>(p, prog[q][0], prog[q][1]); } \
    MC_HARNESS(c20_##T##_3x2, F | mc::F_THOROUGH) { int p = mc::choose(2), q = mc::choose(4); \
        static const char* const prog[][3] = { { "UO", "UO", "O" }, { "OB", "OU", "O" }, { "UU", "OO", "U" }, { "OB", "OB", "O" } }; run<T>(p, prog[q][0], prog[q][1], prog[q][2]); } \

FAMILY(int, mc::F_LEAK | mc::F_WEAK_CAS)
FAMILY(item, mc::F_LEAK)
FAMILY(own_node, mc::F_LEAK | mc::F_WEAK_CAS)

// Nodes that are released as soon as they are popped.
template<typename T>
static void release(int pre, bool push)
{
    counted c;
    atomic_lifo<T> s;
    for (int i = 1; i <= pre; ++i) s.emplace(i);
    bool seen[16] = {};
    auto pop = [&] { auto p = s.pop(); if (p) { int v = value(*p); mc::quiet q; MC_CHECK(v > 0 && v < 16 && !seen[v], "%d was popped twice", v); seen[v] = true; } };
    if (push) mc::parallel([&] { s.emplace(9); }, [&] { pop(); }, [&] { pop(); });
    else mc::parallel(pop, pop);
}
// one popping thread only: its node cannot be in use
MC_HARNESS(c20_release_one, mc::F_LEAK)
{
    counted c;
    atomic_lifo<item> s;
    int pre = mc::choose(3);
    for (int i = 1; i <= pre; ++i) s.emplace(i);
    mc::parallel([&] { s.emplace(9); s.emplace(8); }, [&] { { auto p = s.pop(); } auto p = s.pop(); }, [&] { s.emplace(7); });
}
MC_HARNESS(c20_release_two, mc::F_LEAK | mc::F_NO_RACE | mc::F_PLAIN_VISIBLE) { release<item>(2, false); }
MC_HARNESS(c20_release_push, mc::F_LEAK | mc::F_NO_RACE | mc::F_PLAIN_VISIBLE) { release<int>(1, true); }

MC_MAIN()
