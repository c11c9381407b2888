// @engine seq @std gnu++17 @inc shim @parts c26_three_keys:3
// C26: every sequence of insertions, lookups and erasures with every outcome of the height draws, against std::set.
#include "rng_control.hpp"
#include <seq.hpp>
#include <cxxmetrics/skiplist.hpp>
#include <set>
#include <string>
#include <vector>
using cxxmetrics::skiplist;

namespace
{
int levels = 3;
uint_fast32_t draw()
{
    int l = seq::choose(levels);
    return rngc::at(2 * l + 1, 2 * levels);
}

template<typename T> T key(int i) { return T(i); }
template<> std::string key<std::string>(int i) { return std::string(30, 'k') + (char)('0' + i); }
template<typename T> std::string show(const T& k) { return std::to_string(k); }
template<> std::string show<std::string>(const std::string& k) { return k.substr(30); }

template<typename T, int Size, typename Less = std::less<T>>
struct bench
{
    using list = skiplist<T, Size, Less>;
    list l;
    std::set<T, Less> m;
    int keys;

    explicit bench(int k) : keys(k) { levels = list::width; rngc::source() = &draw; }
    ~bench() { rngc::source() = nullptr; }

    void check()
    {
        std::vector<T> got;
        auto it = l.begin();
        for (size_t i = 0; i <= m.size() + 3 && it != l.end(); ++i, ++it)
        {
            SEQ_CHECK(it.operator->() == &*it, "an iterator's -> and * differ");
            got.push_back(*it);
        }
        SEQ_CHECK(it == l.end() && got == std::vector<T>(m.begin(), m.end()), "iteration gives %s instead of %s",
            str(got).c_str(), str(std::vector<T>(m.begin(), m.end())).c_str());
        for (int k = 0; k < keys; ++k)
        {
            auto f = l.find(key<T>(k));
            SEQ_CHECK((f != l.end()) == (m.count(key<T>(k)) > 0), "find(%d) %s", k, f != l.end() ? "finds what is not there" : "does not find it");
            if (f != l.end()) SEQ_CHECK(*f == key<T>(k), "find(%d) leads to %s", k, show(*f).c_str());
        }
        seq::outcome(str(std::vector<T>(m.begin(), m.end())));
    }
    static std::string str(const std::vector<T>& v)
    {
        std::string s;
        for (auto& x : v) s += show(x) + " ";
        return s;
    }
    void insert(int k)
    {
        bool r = l.insert(key<T>(k));
        bool want = m.insert(key<T>(k)).second;
        seq::log("insert %d -> %d", k, r);
        SEQ_CHECK(r == want, "insert(%d) returns %d", k, r);
    }
    void erase(int k, int how)
    {
        bool r;
        if (how == 0) r = l.erase(key<T>(k));
        else { auto it = l.find(key<T>(k)); r = l.erase(it); }
        bool want = m.erase(key<T>(k)) > 0;
        seq::log("erase %d%s -> %d", k, how ? " by iterator" : "", r);
        SEQ_CHECK(r == want, "erase(%d) returns %d", k, r);
    }
    void step(bool erase_both)
    {
        seq::op();
        int k = seq::choose(keys), what = seq::choose(erase_both ? 3 : 2);
        if (what == 0) insert(k); else erase(k, what - 1);
        check();
    }
};

template<typename T, int Size, typename Less = std::less<T>>
void program(int keys, int steps, bool both = false)
{
    bench<T, Size, Less> b(keys);
    b.check();
    for (int i = 0; i < steps; ++i) b.step(both);
}
}

SEQ_HARNESS(c26_three_keys) { program<int, 8>(3, seq::thorough() ? 6 : 5, true); }
SEQ_HARNESS(c26_four_keys) { program<int, 4>(4, seq::thorough() ? 6 : 5); }
SEQ_HARNESS(c26_five_keys) { program<int, 4>(5, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c26_descending) { program<int, 8, std::greater<int>>(3, seq::thorough() ? 5 : 4); }
SEQ_HARNESS(c26_strings) { program<std::string, 4>(3, seq::thorough() ? 5 : 4); }

// many values in many orders, with heights that follow a pattern
namespace
{
int pattern, drawn;
uint_fast32_t patterned()
{
    int l = pattern == 0 ? 0 : pattern == 1 ? levels - 1 : pattern == 2 ? drawn % levels : pattern == 3 ? (drawn % 4 ? 0 : levels - 1) : (drawn * 7 / 3) % levels;
    ++drawn;
    return rngc::at(2 * l + 1, 2 * levels);
}

template<int Size>
void crowd()
{
    static const int quick[] = { 2, 3, 7, 8, 9, 16, 17, 32, 33, 65 }, deep[] = { 31, 64, 129, 300, 2, 3, 7, 8, 9, 16, 17, 32, 33, 65 };
    static const int steps[] = { 1, -1, 2, 3, 7, 11, 101 };
    using list = skiplist<int, Size>;
    levels = list::width;
    int n = seq::thorough() ? seq::pick(deep) : seq::pick(quick), in = seq::pick(steps), out = seq::pick(steps);
    pattern = seq::choose(5);
    drawn = 0;
    rngc::source() = &patterned;
    struct reset { ~reset() { rngc::source() = nullptr; } } at_end;
    seq::log("%d values inserted in steps of %d, erased in steps of %d, heights %d", n, in, out, pattern);
    list l;
    std::set<int> m;
    auto key = [&](int k, int step) { return (int)(((long)k * step % n + n) % n); };
    auto check = [&] {
        seq::op();
        auto it = l.begin();
        for (int x : m) { SEQ_CHECK(it != l.end(), "iteration ends before %d", x); SEQ_CHECK(*it == x, "iteration gives %d instead of %d", *it, x); ++it; }
        SEQ_CHECK(it == l.end(), "iteration goes on after the last value");
        for (int x = -1; x <= n; ++x)
        {
            auto f = l.find(x);
            SEQ_CHECK((f != l.end()) == (m.count(x) > 0) && (f == l.end() || *f == x), "find(%d) %s", x, f != l.end() ? "finds something else" : "does not find it");
        }
    };
    for (int round = 0; round < 2; ++round)
    {
        for (int k = 0; k < n; ++k)
        {
            int x = key(k, in);
            bool r = l.insert(x), want = m.insert(x).second;
            SEQ_CHECK(r == want, "insert(%d) returns %d", x, r);
            if (n < 10) check();
        }
        check();
        for (int k = 0; k < n; ++k)
        {
            int x = key(k, out);
            if (round == 0 && x % 3 == 0) continue;
            bool want = m.erase(x) > 0, r;
            if (x % 2) r = l.erase(x);
            else { auto it = l.find(x); r = l.erase(it); }
            SEQ_CHECK(r == want, "erase(%d) returns %d", x, r);
            if (n < 10) check();
        }
        check();
    }
}
}
SEQ_HARNESS(c26_crowd_4) { crowd<4>(); }
SEQ_HARNESS(c26_crowd_64) { crowd<64>(); }
SEQ_HARNESS(c26_crowd_1000) { crowd<1000>(); }

// iterators are values: copied and assigned ones stand where the original stood and go their own way
SEQ_HARNESS(c26_iterators)
{
    using list = skiplist<int, 4>;
    levels = list::width;
    rngc::source() = nullptr;
    list l;
    int n = 1 + seq::choose(4);
    for (int i = 0; i < n; ++i) l.insert(10 * i);
    list::iterator it[2] = { l.begin(), list::iterator() };
    int at[2] = { 0, n };
    for (int i = 0; i < (seq::thorough() ? 5 : 4); ++i)
    {
        int a = seq::choose(2), what = seq::choose(5);
        switch (what)
        {
        case 0: seq::log("it%d = it%d", a, 1 - a); it[a] = it[1 - a]; at[a] = at[1 - a]; break;
        case 1: { seq::log("it%d through a copy of it%d, which goes on", a, 1 - a); list::iterator c(it[1 - a]); int was = at[1 - a]; ++it[1 - a]; if (was < n) ++at[1 - a]; it[a] = c; at[a] = was; break; }
        case 2: seq::log("++it%d", a); ++it[a]; if (at[a] < n) ++at[a]; break;
        case 3: { int k = seq::choose(n + 1); seq::log("it%d = find(%d)", a, 10 * k); it[a] = l.find(10 * k); at[a] = k; break; }
        default: seq::log("it%d = it%d", a, a); { auto& self = it[a]; it[a] = self; } break;
        }
        seq::op();
        for (int j = 0; j < 2; ++j)
        {
            SEQ_CHECK((it[j] == l.end()) == (at[j] == n) && (it[j] != l.end()) == (at[j] < n), "iterator %d is %sat the end", j, at[j] < n ? "" : "not ");
            if (at[j] < n) SEQ_CHECK(*it[j] == 10 * at[j] && it[j].operator->() == &*it[j], "iterator %d is at %d, expected %d", j, *it[j], 10 * at[j]);
        }
        SEQ_CHECK((it[0] == it[1]) == (at[0] == at[1]) && (it[0] != it[1]) == (at[0] != at[1]), "the iterators at %d and %d are%s equal", at[0], at[1], it[0] == it[1] ? "" : " not");
    }
}
