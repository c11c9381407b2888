// @engine seq
// C25: every sequence of allocations and of copies, moves, assignments, exchanges and compare-exchanges of handles, against
// a model of shared ownership: who is alive, who shares with whom, when values are destroyed and storage reused.
#include <seq.hpp>
#include <cxxmetrics/pool.hpp>
#include <set>
#include <string>
#include <vector>
#include <utility>
using cxxmetrics::internal::pool;
using cxxmetrics::internal::pool_ptr;

namespace
{
int live;

// a value which counts its instances and notices when it is destroyed twice
struct item
{
    long v;
    unsigned tag;
    item(long x = 0) : v(x), tag(0x600d) { ++live; }
    item(const item& o) : v(o.v), tag(0x600d) { if (o.tag != 0x600d) seq::fail("a value that no longer exists is copied"); ++live; }
    item& operator=(const item& o) { v = o.v; return *this; }
    ~item() { if (tag != 0x600d) seq::fail("a value is destroyed twice"); tag = 0xdead; --live; }
};
long value(const item& i) { if (i.tag != 0x600d) seq::fail("a handle leads to a value that was already destroyed"); return i.v; }
item make(item*, int n) { return item(n); }

struct owning                             // a value with its own memory, and larger than a word
{
    std::string s;
    owning() { ++live; }
    owning(const owning& o) : s(o.s) { ++live; }
    ~owning() { --live; }
};
long value(const owning& o) { return o.s.empty() ? 0 : std::stol(o.s.substr(40)); }
owning make(owning*, int n) { owning o; o.s = std::string(40, ' ') + std::to_string(n); return o; }

struct object { int refs = 0; long v = 0; const void* at = nullptr; };

template<typename V, int H>
struct bench
{
    using ptr = pool_ptr<V>;
    int freed = 0, next_value = 1;
    pool<V> p;
    ptr h[H];
    int m[H];                             // model: the object a handle leads to, -1 for none
    object o[16];
    int no = 0;

    bench() { for (auto& x : m) x = -1; live = 0; }

    int models_alive() const { int n = 0; for (int i = 0; i < no; ++i) n += o[i].refs > 0; return n; }
    void drop(int x) { if (x >= 0 && --o[x].refs == 0) ++freed; }
    void point(int i, int x) { if (x >= 0) ++o[x].refs; drop(m[i]); m[i] = x; }

    int created(const V& v)
    {
        object& n = o[no];
        n.refs = 0; n.v = value(v); n.at = &v;
        for (int i = 0; i < no; ++i)
            SEQ_CHECK(o[i].refs == 0 || o[i].at != n.at, "allocate handed out the storage of object %d, which a handle still leads to", i);
        return no++;
    }

    void check(const char* what)
    {
        SEQ_CHECK(live == models_alive(), "after %s: %d values are alive, but handles lead to %d", what, live, models_alive());
        for (int i = 0; i < H; ++i)
        {
            const ptr& c = h[i];
            SEQ_CHECK((bool)c == (m[i] >= 0), "after %s: handle %d is %s", what, i, m[i] >= 0 ? "null but should lead to an object" : "not null");
            if (m[i] < 0) continue;
            SEQ_CHECK(&*c == o[m[i]].at && c.operator->() == o[m[i]].at && &*h[i] == o[m[i]].at,
                "after %s: handle %d leads to another object than it should", what, i);
            SEQ_CHECK(value(*c) == o[m[i]].v, "after %s: handle %d sees %ld instead of %ld", what, i, value(*c), o[m[i]].v);
        }
        for (int i = 0; i < H; ++i)
            for (int j = 0; j < H; ++j)
                SEQ_CHECK((h[i] == h[j]) == (m[i] == m[j]) && (h[i] != h[j]) == (m[i] != m[j]), "after %s: comparing handles %d and %d", what, i, j);
    }

    void allocate(int i)
    {
        int n = next_value++;
        // storage of values that are gone is reused before the pool asks for more
        V v = make((V*)nullptr, n);
        { ptr a = p.allocate(v); int x = created(*a); o[x].refs = 1; ptr b(std::move(a)); h[i] = std::move(b); drop(m[i]); m[i] = x; }
    }

    void step()
    {
        seq::op();
        int kind = seq::choose(9);
        switch (kind)
        {
        case 0: { int i = seq::choose(H); seq::log("h%d = allocate()", i); allocate(i); break; }
        case 1: { int i = seq::choose(H), j = seq::choose(H); seq::log("h%d = h%d", i, j);
                  ptr& r = (h[i] = h[j]); SEQ_CHECK(&r == &h[i], "assignment returns another handle"); point(i, m[j]); break; }
        case 2: { int i = seq::choose(H), j = seq::choose(H); seq::log("h%d = move(h%d)", i, j);
                  h[i] = std::move(h[j]); if (i != j) { int x = m[j]; m[j] = -1; drop(m[i]); m[i] = x; } break; }
        case 3: { int i = seq::choose(H); seq::log("h%d = nullptr", i); h[i] = nullptr; point(i, -1); break; }
        case 4: { int i = seq::choose(H), j = seq::choose(H + 1), k = seq::choose(H + 1);
                  seq::log("h%d.exchange(%s) -> %s", i, j < H ? seq::fmt("h%d", j).c_str() : "null", k < H ? seq::fmt("h%d", k).c_str() : "dropped");
                  int was = m[i]; if (was >= 0) ++o[was].refs;
                  { ptr old = h[i].exchange(j < H ? h[j] : ptr());
                    SEQ_CHECK((bool)old == (was >= 0) && (!old || &*old == o[was].at), "exchange did not return the previous object");
                    point(i, j < H ? m[j] : -1);
                    SEQ_CHECK(live == models_alive(), "after exchange: %d values are alive, but handles lead to %d", live, models_alive());
                    if (k < H) { h[k] = old; point(k, was); } }
                  drop(was);
                  break; }
        case 5: { int i = seq::choose(H), e = seq::choose(H), n = seq::choose(H + 1);
                  seq::log("h%d.compare_exchange_strong(h%d, %s)", i, e, n < H ? seq::fmt("h%d", n).c_str() : "null");
                  bool expect = m[i] == m[e];
                  bool got = h[i].compare_exchange_strong(h[e], n < H ? h[n] : ptr());
                  SEQ_CHECK(got == expect, "compare_exchange_strong %s although the handle %s the expected object", got ? "succeeded" : "failed", expect ? "leads to" : "does not lead to");
                  if (expect) point(i, n < H ? m[n] : -1); else point(e, m[i]);
                  break; }
        case 6: { int i = seq::choose(H); seq::log("a copy of h%d comes and goes", i);
                  { ptr c(h[i]), d(c); SEQ_CHECK(c == h[i] && d == c, "a copied handle leads elsewhere"); ptr e(std::move(c));
                    SEQ_CHECK(!c && e == h[i], "a moved handle");
                    ptr* self = &e; e = *self; SEQ_CHECK(e == h[i], "a handle assigned to itself"); e = std::move(*self); SEQ_CHECK(e == h[i], "a handle moved to itself"); }
                  break; }
        case 7: { int i = seq::choose(H); seq::log("the value of h%d changes", i); if (m[i] < 0) break;
                  long n = 100 + next_value++; V v = make((V*)nullptr, n); *h[i] = v; o[m[i]].v = n; break; }
        case 8: { int i = seq::choose(H); seq::log("allocate() into a temporary which h%d's copy replaces", i);
                  ptr t = p.allocate(); created(*t); --no; t = h[i]; SEQ_CHECK(t == h[i], "an overwritten handle"); break; }
        }
        check("the operation");
    }

    std::string shape() const
    {
        std::string s;
        for (int i = 0; i < H; ++i) s += m[i] < 0 ? '-' : (char)('a' + o[m[i]].refs);
        return s + std::to_string(no);
    }
};

template<typename V, int H>
void program(int steps)
{
    {
        bench<V, H> b;
        for (int i = 0; i < steps; ++i) b.step();
        seq::outcome(b.shape());
    }
    SEQ_CHECK(live == 0, "%d values are left when the handles and the pool are gone", live);
}

// several values, more alive at once than handles in the other programs: which storage is handed out again
void storage(int n, int steps)
{
    live = 0;
    pool<item> p;
    pool_ptr<item> h[6];
    const void* at[64];
    int blocks = 0, most = 0, alive = 0;
    for (int s = 0; s < steps; ++s)
    {
        seq::op();
        int i = seq::choose(n);
        if (h[i]) { seq::log("drop %d", i); h[i] = nullptr; --alive; }
        else
        {
            seq::log("allocate %d", i);
            h[i] = p.allocate(item(i + 1));
            ++alive;
            int k = 0;
            while (k < blocks && at[k] != &*h[i]) ++k;
            if (k == blocks) at[blocks++] = &*h[i];
        }
        if (alive > most) most = alive;
        SEQ_CHECK(blocks == most, "%d pieces of storage were obtained although at most %d values were alive at once", blocks, most);
        SEQ_CHECK(live == alive, "%d values are alive instead of %d", live, alive);
        for (int a = 0; a < n; ++a)
        {
            if (!h[a]) continue;
            SEQ_CHECK(value(*h[a]) == a + 1, "value %d reads %ld", a + 1, value(*h[a]));
            for (int b = a + 1; b < n; ++b) SEQ_CHECK(!h[b] || &*h[a] != &*h[b], "values %d and %d share their storage", a + 1, b + 1);
        }
        seq::outcome(std::to_string(blocks) + ":" + std::to_string(alive));
    }
}

// values that hold handles of the same pool
struct link
{
    int v;
    pool_ptr<link> next;
    link(int x = 0) : v(x) { ++live; }
    link(const link& o) : v(o.v), next(o.next) { ++live; }
    ~link() { --live; }
};
}

SEQ_HARNESS(c25_handles_2, seq::F_LEAK) { program<item, 2>(seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c25_handles_3, seq::F_LEAK) { program<item, 3>(seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c25_handles_owning, seq::F_LEAK) { program<owning, 2>(seq::thorough() ? 4 : 3); }
SEQ_HARNESS(c25_storage, seq::F_LEAK) { storage(4, seq::thorough() ? 10 : 8); }
SEQ_HARNESS(c25_storage_6, seq::F_LEAK | seq::F_THOROUGH) { storage(6, 8); }

// lists of values which hold handles: dropping the head frees exactly the part nobody else leads to
SEQ_HARNESS(c25_chains, seq::F_LEAK)
{
    live = 0;
    {
        pool<link> p;
        pool_ptr<link> h[3];
        int node[3] = { -1, -1, -1 }, next[16], refs[16] = {}, n = 0;
        auto release = [&](int x) { while (x >= 0 && --refs[x] == 0) x = next[x]; };
        int steps = seq::thorough() ? 6 : 5;
        for (int s = 0; s < steps; ++s)
        {
            seq::op();
            int i = seq::choose(3), k = seq::choose(5);
            if (k == 0)
            {
                seq::log("h%d = allocate in front of h%d", i, i);
                link l(n);
                l.next = h[i];
                h[i] = p.allocate(l);
                next[n] = node[i];          // the list keeps what the handle led to
                refs[n] = 1;
                node[i] = n++;
            }
            else if (k < 3)
            {
                int j = (i + k) % 3;
                seq::log("h%d = h%d", i, j);
                h[i] = h[j];
                if (node[j] >= 0) ++refs[node[j]];
                release(node[i]);
                node[i] = node[j];
            }
            else if (k == 3) { seq::log("h%d = nullptr", i); h[i] = nullptr; release(node[i]); node[i] = -1; }
            else if (node[i] >= 0)
            {
                seq::log("h%d = next of h%d", i, i);
                pool_ptr<link> x = h[i]->next;
                h[i] = x;
                int t = next[node[i]];
                if (t >= 0) ++refs[t];
                release(node[i]);
                node[i] = t;
            }
            int alive = 0;
            for (int a = 0; a < n; ++a) alive += refs[a] > 0;
            SEQ_CHECK(live == alive, "%d values are alive, but %d can be reached", live, alive);
            for (int a = 0; a < 3; ++a)
            {
                pool_ptr<link> x = h[a];
                for (int b = node[a]; b >= 0; b = next[b])
                {
                    SEQ_CHECK((bool)x && x->v == b, "the list of handle %d does not have value %d where it should", a, b);
                    pool_ptr<link> y = x->next;
                    x = y;
                }
                SEQ_CHECK(!x, "the list of handle %d is longer than it should be", a);
            }
            seq::outcome(std::to_string(alive));
        }
        for (auto& x : h) x = nullptr;
        SEQ_CHECK(live == 0, "%d values are left without handles", live);
    }
}

// many values at once, dropped in many orders and allocated again
SEQ_HARNESS(c25_crowd, seq::F_LEAK)
{
    static const int sizes[] = { 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600 };
    static const int steps[] = { 1, -1, 2, 3, 7, 11 };
    int n = seq::pick(sizes), step = seq::pick(steps), keep = seq::choose(3), copies = seq::choose(2);
    seq::log("%d values, every other step %d, 1 in %d kept", n, step, keep + 1);
    live = 0;
    {
        pool<item> p;
        std::vector<pool_ptr<item>> h(n), second(n);
        std::set<const void*> at;
        for (int round = 0; round < 3; ++round)
        {
            for (int i = 0; i < n; ++i)
            {
                if (h[i]) continue;
                h[i] = p.allocate(item(1000 * round + i));
                at.insert(&*h[i]);
                if (copies) second[i] = h[i];
                seq::op();
            }
            SEQ_CHECK(live == n, "%d values are alive instead of %d", live, n);
            SEQ_CHECK((int)at.size() == n, "%d values used %zu pieces of storage", n, at.size());
            for (int i = 0; i < n; ++i)
            {
                long v = value(*h[i]);
                SEQ_CHECK(v % 1000 == i && v / 1000 <= round, "value %d reads %ld", i, v);
            }
            int gone = 0;
            for (int k = 0; k < n; ++k)
            {
                int i = ((long)k * step % n + n) % n;
                if (keep && (i + round) % (keep + 1) == 0) continue;
                if (!h[i]) continue;
                h[i] = nullptr;
                if (copies) { SEQ_CHECK(value(*second[i]) % 1000 == i, "a shared value is gone"); second[i] = nullptr; }
                ++gone;
            }
            SEQ_CHECK(live == n - gone, "%d values are alive instead of %d", live, n - gone);
        }
    }
    SEQ_CHECK(live == 0, "%d values are left when the handles and the pool are gone", live);
}
