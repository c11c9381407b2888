// @std gnu++17 @inc shim
// C26: insertions, lookups and erasures by several threads at once.
#include <random>
#include <cstdint>
namespace draws
{
inline int level[4][4], used[4], width = 3;     // what each thread draws
}
#include <mc.hpp>
namespace std
{
template<>
class linear_congruential_engine<uint_fast32_t, 16807UL, 0UL, 2147483647UL>
{
    uint_fast32_t x_;
public:
    using result_type = uint_fast32_t;
    static constexpr result_type default_seed = 1u;
    explicit linear_congruential_engine(result_type s = 1) : x_(s ? s : 1) { }
    void seed(result_type s = 1) { x_ = s ? s : 1; }
    static constexpr result_type min() { return 1; }
    static constexpr result_type max() { return 2147483646; }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    result_type operator()()
    {
        ++x_;                                   // the engine has a state, which it changes
        mc::quiet q;
        int t = mc::mc_tid();
        int l = draws::level[t][draws::used[t]++ % 4];
        return min() + (result_type)((unsigned long long)(max() - min()) * (2 * l + 1) / (2 * draws::width));
    }
};
}
#include <cxxmetrics/skiplist.hpp>
#include <algorithm>
#include <string>
#include <vector>
using cxxmetrics::skiplist;

namespace
{
template<int Size>
struct bench
{
    using list = skiplist<int, Size>;
    list l;
    mc::history<16> h;
    static constexpr int keys = 8;

    enum { INSERT, ERASE, FIND };
    struct model
    {
        unsigned set = 0;
        bool step(const mc::op_rec& o)
        {
            unsigned b = 1u << o.arg;
            bool in = set & b;
            if (o.code == INSERT) { if (o.done && o.ret != !in) return false; set |= b; }
            else if (o.code == ERASE) { if (o.done && o.ret != in) return false; set &= ~b; }
            else if (o.done && o.ret != in) return false;
            return true;
        }
    };

    static bool contains(const std::vector<int>& v, int k) { return std::find(v.begin(), v.end(), k) != v.end(); }

    void run(const char* prog)
    {
        for (; prog[0]; prog += 2)
        {
            int k = prog[1] - '0';
            if (prog[0] == 'i') { auto o = h.begin(INSERT, k); bool r = l.insert(k); h.end(o, r); }
            else if (prog[0] == 'e') { auto o = h.begin(ERASE, k); bool r = l.erase(k); h.end(o, r); }
            else { auto o = h.begin(FIND, k); bool r = l.find(k) != l.end(); h.end(o, r); }
        }
    }
    void finish()
    {
        // what a single thread finds afterwards continues the history, and iteration agrees with it
        std::vector<int> got;
        auto it = l.begin();
        for (int i = 0; i < 12 && it != l.end(); ++i, ++it) got.push_back(*it);
        std::string s;
        for (int i = 0; i < h.n; ++i) s += (h.ops[i].code == INSERT ? " insert(" : h.ops[i].code == ERASE ? " erase(" : " find(")
            + std::to_string(h.ops[i].arg) + ")=" + std::to_string(h.ops[i].ret) + "@t" + std::to_string(h.ops[i].thread);
        s += " then";
        for (int x : got) s += " " + std::to_string(x);
        MC_CHECK(it == l.end() && std::is_sorted(got.begin(), got.end(), std::less_equal<int>()), "not in strictly ascending order:%s", s.c_str());
        for (int k = 0; k < keys; ++k)
        {
            bool used = contains(got, k);
            for (int i = 0; i < h.n; ++i) used |= h.ops[i].arg == k;
            if (!used) continue;
            bool f = l.find(k) != l.end();
            MC_CHECK(f == contains(got, k), "find(%d) is %d afterwards, in disagreement with iteration:%s", k, f, s.c_str());
            auto o = &h.ops[h.n++];
            *o = mc::op_rec();
            o->code = FIND; o->arg = k; o->ret = f;
            o->call = mc::mc_tick() + 1000 + 2 * k;
            o->done = o->call + 1;
        }
        // every key for itself: operations on different keys do not influence each other's results
        for (int k = 0; k < keys; ++k)
        {
            mc::op_rec own[16]; int n = 0;
            for (int i = 0; i < h.n; ++i) if (h.ops[i].arg == k) own[n++] = h.ops[i];
            MC_CHECK(!n || mc::linearizable(own, n, model(), [](model& m, const mc::op_rec& o) { return m.step(o); }),
                "no order of the operations on %d explains:%s", k, s.c_str());
        }
        mc::outcome(s);
    }
};

// 'pre' is run by one thread first, with the heights of the digits; then each thread its program, with any heights
void set_levels(int t, int n, int lv) { draws::used[t] = 0; for (int i = 0; i < 4; ++i) draws::level[t][i] = i < n ? (lv >> 2 * i) & 3 : 0; }
int inserts(const char* p) { int n = 0; for (; *p; ++p) n += *p == 'i'; return n; }

template<int Size, int N>
void run(const char* pre, int pre_levels, const char* const (&progs)[N])
{
    bench<Size> b;
    draws::width = bench<Size>::list::width;
    set_levels(mc::mc_tid(), 4, pre_levels);
    b.run(pre);
    for (int t = 0; t < N; ++t)
    {
        int lv = 0, n = inserts(progs[t]);
        for (int i = 0; i < n; ++i) lv |= mc::choose(draws::width) << 2 * i;
        set_levels(t + 1, n, lv);
    }
    if (N == 2) mc::parallel([&] { b.run(progs[0]); }, [&] { b.run(progs[1]); });
    else mc::parallel([&] { b.run(progs[0]); }, [&] { b.run(progs[1]); }, [&] { b.run(progs[N - 1]); });
    b.finish();
}

const char* const befores[] = { "", "i4", "i4i6", "i2i4" };
const char* const ins[][2] = { { "i3", "i5" }, { "i3", "i3" }, { "i5", "i4" }, { "i1", "i7" }, { "i3", "f3" } };
const char* const er[][2] = { { "e4", "i5" }, { "e4", "e4" }, { "e4", "i4" }, { "e4", "f4" }, { "e4", "i3" }, { "e4", "e6" }, { "e4", "e2" } };
const char* const twos[][2] = { { "e4i4", "i5" }, { "e4i4", "e4" }, { "i3e3", "i3" }, { "e4e6", "i5" }, { "i5i3", "i3i5" }, { "e4i4", "f4e4" }, { "e4i2", "i3" }, { "e4i1", "e2i3" } };
const char* const threes[][3] = { { "i3", "i5", "e4" }, { "e4", "i4", "e4" }, { "i3", "i3", "i3" }, { "e4", "e6", "i5" }, { "e4", "i3", "f3" }, { "e2", "e4", "i3" }, { "e4", "i4", "f4" } };
}

static void inserting() { int b = mc::choose(4); run<4>(befores[b], b < 2 ? mc::choose(2) : mc::choose(2) | mc::choose(2) << 2, ins[mc::choose(5)]); }
static void erasing() { int b = 1 + mc::choose(3); run<4>(befores[b], b < 2 ? mc::choose(2) : mc::choose(2) | mc::choose(2) << 2, er[mc::choose(7)]); }
template<int N, int M>
static void several(const char* const (&progs)[N][M]) { int b = 1 + mc::choose(3); run<4>(befores[b], b < 2 ? mc::choose(2) : mc::choose(2) | mc::choose(2) << 2, progs[mc::choose(N)]); }

MC_HARNESS(c26_inserts, mc::F_PB, 2, 0) { inserting(); }
MC_HARNESS(c26_inserts_3, mc::F_PB | mc::F_THOROUGH, 3, 0) { inserting(); }
MC_HARNESS(c26_erases, mc::F_PB, 2, 0) { erasing(); }
MC_HARNESS(c26_erases_3, mc::F_PB | mc::F_THOROUGH, 3, 0) { erasing(); }
MC_HARNESS(c26_two_each, mc::F_PB, 1, 0) { several(twos); }
MC_HARNESS(c26_two_each_2, mc::F_PB | mc::F_THOROUGH, 2, 0) { several(twos); }
MC_HARNESS(c26_three, mc::F_PB, 1, 0) { several(threes); }
MC_HARNESS(c26_three_2, mc::F_PB | mc::F_THOROUGH, 2, 0) { several(threes); }
MC_MAIN()
