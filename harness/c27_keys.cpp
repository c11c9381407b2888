// @engine seq
// C27: metric paths and tag sets as keys, built in every way, order and grouping.
#include <seq.hpp>
#include <iostream>
#include <cxxmetrics/metric_path.hpp>
#include <cxxmetrics/tag_collection.hpp>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

namespace
{
using strings = std::vector<std::string>;
const char* const alphabet[] = { "a", "b", "a/b" };

std::string show(const strings& v)
{
    std::string r = "[";
    for (auto& s : v) r += (r.size() > 1 ? ", \"" : "\"") + s + "\"";
    return r + "]";
}
strings elements(const metric_path& p) { return strings(p.begin(), p.end()); }

metric_path leaf(const std::string& e)
{
    switch (seq::choose(4))
    {
        case 0: return metric_path(e);
        case 1: return metric_path(e.c_str());
        case 2: return metric_path((e + "zz").c_str(), e.size());
        default: return e == "a" ? "a"_m : e == "b" ? "b"_m : "a/b"_m;
    }
}
metric_path literal_over(const std::string& e, const metric_path& p)
{
    if (e == "a") return "a" / p;
    if (e == "b") return "b" / p;
    return "a/b" / p;
}
metric_path none()
{
    switch (seq::choose(4))
    {
        case 0: return metric_path("");
        case 1: return metric_path(std::string());
        case 2: return metric_path(static_cast<const char*>(nullptr));
        default: return ""_m;
    }
}

// v as a path, grouped in every way; with_leaves: every way of building the elements
metric_path build(const strings& v, size_t b, size_t e, bool with_leaves)
{
    seq::op();
    if (b == e) return with_leaves ? none() : metric_path("");
    if (e - b == 1) return with_leaves ? leaf(v[b]) : metric_path(v[b]);
    int how = seq::choose(int(e - b));
    if (how == int(e - b) - 1) return literal_over(v[b], build(v, b + 1, e, with_leaves));
    metric_path l = build(v, b, b + how + 1, with_leaves), r = build(v, b + how + 1, e, with_leaves);
    metric_path whole = l / r;
    SEQ_CHECK(elements(l) == strings(v.begin() + b, v.begin() + b + how + 1) && elements(r) == strings(v.begin() + b + how + 1, v.begin() + e), "concatenation changed its operands");
    return whole;
}

strings any_strings(int max)
{
    strings v;
    for (int n = seq::choose(max + 1); n; --n) v.push_back(seq::pick(alphabet));
    return v;
}

void is(const metric_path& p, const strings& v, const char* how)
{
    SEQ_CHECK(elements(p) == v, "%s: path %s, expected %s", how, show(elements(p)).c_str(), show(v).c_str());
    metric_path plain("");
    for (auto& s : v) plain = plain / metric_path(s);
    SEQ_CHECK(p == plain && plain == p && !(p != plain) && !(plain != p), "%s: path %s is not equal to the same path built otherwise", how, show(v).c_str());
    SEQ_CHECK(std::hash<metric_path>()(p) == std::hash<metric_path>()(plain), "%s: path %s hashes differently", how, show(v).c_str());
    for (auto d : { "", "/", "::" })
    {
        std::string want;
        for (size_t i = 0; i < v.size(); ++i) want += (i ? d : "") + v[i];
        SEQ_CHECK(p.join(d) == want, "%s: %s joined with \"%s\" is \"%s\"", how, show(v).c_str(), d, p.join(d).c_str());
    }
    metric_path copy(p), assigned("q");
    assigned = p;
    SEQ_CHECK(copy == p && assigned == p && elements(copy) == v && elements(assigned) == v, "copies of path %s differ", show(v).c_str());
}
}

SEQ_HARNESS(c27_paths)
{
    strings v = any_strings(seq::thorough() ? 6 : 5);
    is(build(v, 0, v.size(), false), v, "grouped");
}

SEQ_HARNESS(c27_path_elements)
{
    strings v = any_strings(4);
    is(build(v, 0, v.size(), true), v, "grouped");
}

SEQ_HARNESS(c27_path_empty)
{
    strings v = any_strings(3);
    metric_path p("");
    bool left = seq::choose(2);
    metric_path core = build(v, 0, v.size(), false);
    if (left)
        switch (seq::choose(2)) { case 0: p = none() / core; break; default: p = "" / core; }
    else p = core / none();
    is(p, v, left ? "empty / path" : "path / empty");
}

SEQ_HARNESS(c27_path_pairs)
{
    strings a = any_strings(4), b = any_strings(4);
    metric_path pa("x"), pb("x");
    pa = metric_path("");
    pb = metric_path("");
    for (auto& s : a) pa = pa / s;
    for (auto& s : b) pb = pb / s;
    SEQ_CHECK((pa == pb) == (a == b) && (pa != pb) == (a != b), "%s and %s compare %s", show(a).c_str(), show(b).c_str(), pa == pb ? "equal" : "different");
    strings ab = a;
    ab.insert(ab.end(), b.begin(), b.end());
    is(pa / pb, ab, "concatenated");
    is(pa, a, "first operand");
    is(pb, b, "second operand");
}

namespace
{
enum { INTS, LONGS, TEXTS, REALS, TIMES };
metric_value value(int type, int i)
{
    switch (type)
    {
        case INTS: return metric_value(i - 1);
        case LONGS: return metric_value(int64_t(i) << 40);
        case TEXTS: return metric_value(std::string(i, 'x'));
        case REALS: return metric_value(i * 0.5);
        default:
            // the same count in other units is another time
            switch (i)
            {
                case 0: return metric_value(std::chrono::seconds(1));
                case 1: return metric_value(std::chrono::milliseconds(1));
                case 2: return metric_value(std::chrono::microseconds(1));
                default: return metric_value(std::chrono::seconds(i));
            }
    }
}
struct tag { int key, val; };
const char* const keys[] = { "a", "b", "c", "host", "" };
using item = std::pair<std::string, metric_value>;

tag_collection make(const std::vector<tag>& t, int type)
{
    std::vector<item> items;
    for (auto& x : t) items.emplace_back(keys[x.key], value(type, x.val));
    seq::op(items.size());
    switch (seq::choose(5))
    {
        case 0: return tag_collection(items);
        case 1: return tag_collection(std::list<item>(items.begin(), items.end()), 97);
        case 2: { tag_collection c(items); tag_collection d(c); return d; }
        case 3: { tag_collection c(items), d({ { "z", metric_value(7) } }); d = c; return d; }
        default:
            switch (t.size())
            {
                case 0: return tag_collection();
                case 1: return tag_collection({ { items[0].first, items[0].second } });
                case 2: return tag_collection({ { items[0].first, items[0].second }, { items[1].first, items[1].second } });
                case 3: return tag_collection({ { items[0].first, items[0].second }, { items[1].first, items[1].second }, { items[2].first, items[2].second } });
                default: return tag_collection({ { items[0].first, items[0].second }, { items[1].first, items[1].second }, { items[2].first, items[2].second }, { items[3].first, items[3].second } });
            }
    }
}
std::string show(const std::vector<tag>& t)
{
    std::string r = "{";
    for (auto& x : t) r += seq::fmt("%s%s=v%d", r.size() > 1 ? ", " : "", keys[x.key], x.val);
    return r + "}";
}
// a tag set in ascending key order
std::vector<tag> any_tags(int max, int nkeys, int nvals)
{
    std::vector<tag> t;
    int from = 0;
    for (int n = seq::choose(max + 1); n; --n)
    {
        if (from >= nkeys) break;
        int k = from + seq::choose(nkeys - from);
        t.push_back({ k, seq::choose(nvals) });
        from = k + 1;
    }
    return t;
}
std::vector<tag> shuffled(std::vector<tag> t)
{
    std::vector<tag> r;
    while (!t.empty()) { int i = seq::choose((int)t.size()); r.push_back(t[i]); t.erase(t.begin() + i); }
    return r;
}
}

SEQ_HARNESS(c27_tag_orders)
{
    int type = seq::choose(5);
    std::vector<tag> t = any_tags(seq::thorough() ? 4 : 3, 4, 2), order = shuffled(t);
    tag_collection a = make(order, type);
    std::vector<item> sorted;
    for (auto& x : t) sorted.emplace_back(keys[x.key], value(type, x.val));
    tag_collection b(sorted);
    SEQ_CHECK(a == b && b == a && !(a != b) && !(b != a), "%s listed as %s is another tag set", show(t).c_str(), show(order).c_str());
    SEQ_CHECK(std::hash<tag_collection>()(a) == std::hash<tag_collection>()(b), "%s listed as %s hashes differently", show(t).c_str(), show(order).c_str());
    size_t n = 0;
    for (auto& p : a)
    {
        ++n;
        bool found = false;
        for (auto& s : sorted) found |= s.first == p.first && s.second == p.second;
        SEQ_CHECK(found, "%s contains %s=%s", show(order).c_str(), p.first.c_str(), static_cast<std::string>(p.second).c_str());
    }
    SEQ_CHECK(n == t.size(), "%s contains %zu tags", show(order).c_str(), n);
}

SEQ_HARNESS(c27_tag_pairs)
{
    int type = seq::choose(5);
    int nk = seq::thorough() ? 5 : 4;
    std::vector<tag> s = any_tags(3, nk, 2), t = any_tags(3, nk, 2);
    bool same = s.size() == t.size() && std::equal(s.begin(), s.end(), t.begin(), [](const tag& x, const tag& y) { return x.key == y.key && x.val == y.val; });
    std::vector<item> is, it;
    for (auto& x : s) is.emplace_back(keys[x.key], value(type, x.val));
    for (auto& x : t) it.emplace_back(keys[x.key], value(type, x.val));
    std::reverse(it.begin(), it.end());
    tag_collection a(is), b(it);
    SEQ_CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "%s and %s compare %s", show(s).c_str(), show(t).c_str(), a == b ? "equal" : "different");
    std::unordered_map<tag_collection, int> m;
    m[a] = 1;
    m[b] = 2;
    SEQ_CHECK(m.size() == (same ? 1u : 2u) && m[a] == (same ? 2 : 1), "%s and %s as keys of one map", show(s).c_str(), show(t).c_str());
}

// long paths: elements with common beginnings, of many lengths, grouped from the left, from the right and in halves
namespace
{
metric_path halves(const strings& v, size_t b, size_t e)
{
    if (b == e) return metric_path("");
    if (e - b == 1) return metric_path(v[b]);
    return halves(v, b, b + (e - b) / 2) / halves(v, b + (e - b) / 2, e);
}
}
SEQ_HARNESS(c27_long_paths)
{
    static const int counts[] = { 1, 2, 5, 8, 9, 16, 17, 33, 64 };
    static const int lengths[] = { 1, 2, 14, 15, 16, 17, 23, 31, 32, 63, 64, 65, 255, 256, 257, 1000 };
    int n = seq::pick(counts), len = seq::pick(lengths), how = seq::choose(3), other = seq::choose(4);
    seq::op(n);
    seq::log("%d elements of %d characters", n, len);
    strings v;
    for (int i = 0; i < n; ++i) v.push_back(std::string(len - 1, "ab/"[i % 3]) + (char)('A' + i % 26));
    metric_path p("");
    if (how == 0) for (auto& s : v) p = p / s;
    else if (how == 1) for (size_t i = v.size(); i-- > 0;) p = metric_path(v[i]) / p;
    else p = halves(v, 0, v.size());
    is(p, v, how == 0 ? "from the left" : how == 1 ? "from the right" : "from halves");
    // a path that is slightly different
    strings w = v;
    switch (other)
    {
        case 0: w.back().back() = '#'; break;
        case 1: w.front().back() = '#'; break;
        case 2: w[n / 2] += 'x'; break;
        default: w.push_back("x"); break;
    }
    metric_path q = halves(w, 0, w.size());
    SEQ_CHECK(q != p && !(q == p), "paths of %d elements are equal though they differ in one", n);
    is(q, w, "the other path");
}

// large tag sets, listed in many orders
SEQ_HARNESS(c27_large_tag_sets)
{
    static const int counts[] = { 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 100, 257 };
    static const int steps[] = { 1, -1, 3, 7, 11, 101 };
    int n = seq::pick(counts), step = seq::pick(steps), type = seq::choose(5), keylen = seq::choose(3), other = seq::choose(4);
    while (std::abs(step) > 1 && n % std::abs(step) == 0) ++step;
    if (step > 1) { int a = n, b = step; while (b) { int c = a % b; a = b; b = c; } if (a != 1) step = 1; }
    seq::op(n);
    seq::log("%d tags listed in steps of %d", n, step);
    auto key = [&](int i) { return std::string(keylen == 0 ? 0 : keylen == 1 ? 14 : 40, 'k') + std::to_string(i); };
    std::vector<item> is, it, io;
    for (int i = 0; i < n; ++i) is.emplace_back(key(i), value(type, i % 7));
    for (int k = 0; k < n; ++k) it.push_back(is[((long)k * step % n + n) % n]);
    tag_collection a(is), b(it), c(b);
    SEQ_CHECK(a == b && !(a != b) && b == a && c == a, "%d tags in another order are another tag set", n);
    SEQ_CHECK(std::hash<tag_collection>()(a) == std::hash<tag_collection>()(b), "%d tags in another order hash differently", n);
    std::map<std::string, metric_value> seen;
    size_t count = 0;
    for (auto& p : b) { ++count; seen.emplace(p.first, p.second); }
    SEQ_CHECK(count == (size_t)n && seen.size() == (size_t)n, "%zu tags with %zu keys instead of %d", count, seen.size(), n);
    for (auto& x : is) SEQ_CHECK(seen.count(x.first) && seen.at(x.first) == x.second, "the tag %s is missing or has another value", x.first.c_str());
    for (auto& x : it) io.push_back(x);
    switch (other)
    {
        case 0: io.back().second = metric_value(12345); break;
        case 1: io.front().first += "x"; break;
        case 2: io.pop_back(); break;
        default: io.emplace_back("another", metric_value(1)); break;
    }
    tag_collection d(io);
    SEQ_CHECK(a != d && !(a == d) && d != a, "tag sets of %d are equal though they differ in one", n);
    std::unordered_map<tag_collection, int> m;
    m[a] = 1; m[d] = 2; m[b] += 10;
    SEQ_CHECK(m.size() == 2 && m[c] == 11 && m[d] == 2, "two tag sets as keys of a map");
}
