// @engine seq
// C20, one thread: all operation sequences, construction, moving and destruction.
#include <seq.hpp>
#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <vector>
using cxxmetrics::internal::atomic_lifo;

namespace
{
int live;
struct item
{
    int v;
    bool dead = false;
    item(int x) : v(x) { ++live; }
    item(const item& o) : v(o.v) { ++live; }
    item(item&& o) : v(o.v) { o.v = -1; ++live; }
    ~item() { SEQ_CHECK(!dead, "an element is destroyed twice"); dead = true; --live; }
};
struct own_node
{
    int v;
    own_node* link = nullptr;
    own_node(int x) : v(x) { ++live; }
    own_node(const own_node& o) : v(o.v), link(o.link) { ++live; }
    ~own_node() { --live; }
    own_node* next() { return link; }
    void set_next(own_node* n) { link = n; }
    operator int&() { return v; }
    operator const int&() const { return v; }
};
int value(const item& i) { return i.v; }
int value(const own_node& i) { return i.v; }
int value(int i) { return i; }
template<typename L, typename T> void push(L& l, int v, T*) { T t(v); l.push(std::move(t)); }
template<typename L> void push(L& l, int v, own_node*) { l.push(l.make_pointer(v)); }

template<typename T>
void program(int depth)
{
    live = 0;
    {
        using lifo = atomic_lifo<T>;
        auto s = std::make_unique<lifo>();
        std::vector<int> m;
        typename lifo::pointer_type kept;
        int next = 0, in_hand = 0;
        for (int d = 0; d < depth; ++d)
        {
            int k = seq::choose(7);
            seq::op();
            switch (k)
            {
            case 0: seq::log("push(%d)", ++next); push(*s, next, (T*)nullptr); m.push_back(next); break;
            case 1: seq::log("emplace(%d)", ++next); s->emplace(next); m.push_back(next); break;
            case 2: case 3:
            {
                seq::log(k == 2 ? "pop, keep" : "pop, release");
                auto p = s->pop();
                SEQ_CHECK(bool(p) == !m.empty(), "pop %s, the stack had %zu elements", p ? "returned an element" : "found nothing", m.size());
                if (!p) break;
                int v = value(*p);
                SEQ_CHECK(v == m.back() && value(*p.operator->()) == v, "popped %d, expected %d", v, m.back());
                m.pop_back();
                if (k == 2) { kept = std::move(p); in_hand = v; SEQ_CHECK(!p, "a moved pointer still has its node"); }
                break;
            }
            case 4:
                seq::log("push back");
                s->push(std::move(kept));
                SEQ_CHECK(!kept, "a pushed pointer still has its node");
                if (in_hand) m.push_back(in_hand);
                in_hand = 0;
                break;
            case 5:
            {
                seq::log("move construct");
                auto t = std::make_unique<lifo>(std::move(*s));
                SEQ_CHECK(!s->pop(), "a stack that was moved from is not empty");
                s = std::move(t);
                break;
            }
            case 6:
            {
                seq::log("new pointer");
                kept = s->make_pointer(++next);
                in_hand = next;
                SEQ_CHECK(kept && value(*kept) == next, "make_pointer holds %d, expected %d", value(*kept), next);
                break;
            }
            }
            SEQ_CHECK(bool(kept) == (in_hand != 0) && (!kept || value(*kept) == in_hand), "the popped node changed");
            if (!std::is_same<T, int>::value) SEQ_CHECK(live == (int)m.size() + (in_hand ? 1 : 0), "%d elements are alive, expected %zu", live, m.size() + (in_hand ? 1 : 0));
        }
        // leave some of them for the destructor
        int rest = seq::choose(2);
        while (!m.empty() && rest)
        {
            auto p = s->pop();
            SEQ_CHECK(p && value(*p) == m.back(), "finally popped %d, expected %d", p ? value(*p) : 0, m.back());
            m.pop_back();
        }
    }
    SEQ_CHECK(live == 0, "%d elements outlive the stack", live);
}

// an allocator which counts
struct totals { long allocated = 0, freed = 0, made = 0, gone = 0; } tot;
template<typename T>
struct counting
{
    using value_type = T;
    template<typename U> struct rebind { using other = counting<U>; };
    counting() = default;
    template<typename U> counting(const counting<U>&) { }
    T* allocate(size_t n) { ++tot.allocated; return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { ++tot.freed; std::allocator<T>().deallocate(p, n); }
    template<typename U, typename... A> void construct(U* p, A&&... a) { ++tot.made; ::new ((void*)p) U(std::forward<A>(a)...); }
    template<typename U> void destroy(U* p) { ++tot.gone; p->~U(); }
    template<typename U> bool operator==(const counting<U>&) const { return true; }
    template<typename U> bool operator!=(const counting<U>&) const { return false; }
};
}

SEQ_HARNESS(c20_seq_int, seq::F_LEAK) { program<int>(seq::thorough() ? 7 : 6); }
SEQ_HARNESS(c20_seq_item, seq::F_LEAK) { program<item>(seq::thorough() ? 7 : 6); }
SEQ_HARNESS(c20_seq_own, seq::F_LEAK) { program<own_node>(seq::thorough() ? 7 : 6); }

SEQ_HARNESS(c20_seq_construct, seq::F_LEAK)
{
    int n = seq::choose(5);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(10 + i);
    if (seq::choose(2))
    {
        // the last of the range is on top
        atomic_lifo<int> s(v.begin(), v.end());
        for (int i = n - 1; i >= 0; --i) { auto p = s.pop(); SEQ_CHECK(p && *p == 10 + i, "popped %d, expected %d", p ? *p : 0, 10 + i); }
        SEQ_CHECK(!s.pop(), "more elements than were given");
    }
    else
    {
        // the first of the list is on top
        auto check = [&](atomic_lifo<int>& s) { for (int i = 0; i < n; ++i) { auto p = s.pop(); SEQ_CHECK(p && *p == 10 + i, "popped %d, expected %d", p ? *p : 0, 10 + i); } SEQ_CHECK(!s.pop(), "more elements than were given"); };
        switch (n)
        {
        case 0: { atomic_lifo<int> s; check(s); break; }
        case 1: { atomic_lifo<int> s = { 10 }; check(s); break; }
        case 2: { atomic_lifo<int> s = { 10, 11 }; check(s); break; }
        case 3: { atomic_lifo<int> s = { 10, 11, 12 }; check(s); break; }
        case 4: { atomic_lifo<int> s = { 10, 11, 12, 13 }; check(s); break; }
        }
    }
}
SEQ_HARNESS(c20_seq_allocator, seq::F_LEAK)
{
    tot = totals();
    {
        atomic_lifo<item, counting<item>> s;
        int n = seq::choose(4), k = seq::choose(3);
        for (int i = 0; i < n; ++i) s.emplace(i);
        for (int i = 0; i < k; ++i) auto p = s.pop();
        auto p = s.make_pointer(7);
        if (seq::choose(2)) s.push(std::move(p));
    }
    SEQ_CHECK(tot.allocated == tot.freed && tot.made == tot.gone && tot.allocated == tot.made, "%ld nodes allocated, %ld freed; %ld constructed, %ld destroyed", tot.allocated, tot.freed, tot.made, tot.gone);
}

// many elements: filled, partly emptied, filled again with the nodes that were popped, in several rounds
namespace
{
template<typename T>
void crowd()
{
    static const int sizes[] = { 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 70000 };
    int n = seq::pick(sizes), part = 1 + seq::choose(4), reuse = seq::choose(2), how = seq::choose(3), rest = seq::choose(2);
    live = 0;
    {
        using lifo = atomic_lifo<T>;
        auto s = std::make_unique<lifo>();
        std::vector<int> m;
        std::vector<typename lifo::pointer_type> held;
        int next = 0;
        for (int round = 0; round < 3; ++round)
        {
            for (int i = 0; i < n; ++i) { ++next; if (i % 2) push(*s, next, (T*)nullptr); else s->emplace(next); m.push_back(next); }
            if (how == 1) { auto t = std::make_unique<lifo>(std::move(*s)); SEQ_CHECK(!s->pop(), "a stack that was moved from is not empty"); s = std::move(t); }
            for (int i = 0; i < n * part / 4; ++i)
            {
                auto p = s->pop();
                SEQ_CHECK(p, "nothing to pop, the stack has %zu elements", m.size());
                SEQ_CHECK(value(*p) == m.back(), "popped %d, expected %d", value(*p), m.back());
                m.pop_back();
                if (reuse) held.push_back(std::move(p));
                seq::op();
            }
            for (auto& p : held) { int v = value(*p); s->push(std::move(p)); m.push_back(v); }
            held.clear();
            if (!std::is_same<T, int>::value) SEQ_CHECK(live == (int)m.size(), "%d elements are alive, expected %zu", live, m.size());
        }
        if (how == 2) { auto t = std::make_unique<lifo>(std::move(*s)); s = std::move(t); }
        while (!m.empty() && rest)
        {
            auto p = s->pop();
            SEQ_CHECK(p && value(*p) == m.back(), "finally popped %d, expected %d", p ? value(*p) : 0, m.back());
            m.pop_back();
        }
        if (rest) SEQ_CHECK(!s->pop(), "more elements than were pushed");
    }
    SEQ_CHECK(live == 0, "%d elements outlive the stack", live);
}
}
SEQ_HARNESS(c20_seq_crowd_int, seq::F_LEAK) { crowd<int>(); }
SEQ_HARNESS(c20_seq_crowd_item, seq::F_LEAK) { crowd<item>(); }
SEQ_HARNESS(c20_seq_crowd_own, seq::F_LEAK) { crowd<own_node>(); }
