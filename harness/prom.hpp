// Reads the Prometheus text exposition format strictly, and says what should be written for a metric.
#ifndef PROM_HPP
#define PROM_HPP
#include <seq.hpp>
#include <iostream>
#include <sstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>

namespace prom
{
using labels = std::map<std::string, std::string>;
struct sample { std::string name; labels tags; long double value; };
struct page
{
    std::vector<sample> samples;
    std::map<std::string, std::string> types, helps;
};

inline std::string quoted(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) r += c >= 32 && c < 127 && c != '\\' ? std::string(1, (char)c) : seq::fmt("\\x%02x", c);
    return r;
}
inline bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline std::string series(const sample& s)
{
    std::string r = s.name + "{";
    for (auto& l : s.tags) r += quoted(l.first) + "=\"" + quoted(l.second) + "\" ";
    return r + "}";
}

#define PROM_SYNTAX(c, what) SEQ_CHECK(c, "%s in line [%s]", what, quoted(line).c_str())
inline std::string name_at(const std::string& line, size_t& i)
{
    size_t b = i;
    PROM_SYNTAX(i < line.size() && (letter(line[i]) || line[i] == ':'), "no metric name");
    while (i < line.size() && (letter(line[i]) || digit(line[i]) || line[i] == ':')) ++i;
    return line.substr(b, i - b);
}
inline page read(const std::string& text)
{
    page p;
    std::set<std::string> sampled, seen;
    SEQ_CHECK(text.empty() || text.back() == '\n', "the last line has no end");
    size_t at = 0;
    while (at < text.size())
    {
        size_t e = text.find('\n', at);
        std::string line = text.substr(at, e - at);
        at = e + 1;
        if (line.empty()) continue;
        if (line[0] == '#')
        {
            bool help = line.compare(0, 7, "# HELP ") == 0, type = line.compare(0, 7, "# TYPE ") == 0;
            if (!help && !type) continue;            // a comment
            size_t i = 7;
            std::string n = name_at(line, i);
            PROM_SYNTAX(i < line.size() && line[i] == ' ', "no blank after the name");
            std::string rest = line.substr(i + 1);
            if (help)
            {
                PROM_SYNTAX(!p.helps.count(n), "second help");
                for (size_t k = 0; k < rest.size(); ++k) if (rest[k] == '\\') { PROM_SYNTAX(k + 1 < rest.size() && (rest[k + 1] == '\\' || rest[k + 1] == 'n'), "bad escape"); ++k; }
                p.helps[n] = rest;
            }
            else
            {
                PROM_SYNTAX(!p.types.count(n), "second type");
                PROM_SYNTAX(!sampled.count(n), "type after a sample");
                PROM_SYNTAX(rest == "counter" || rest == "gauge" || rest == "histogram" || rest == "summary" || rest == "untyped", "unknown type");
                p.types[n] = rest;
            }
            continue;
        }
        size_t i = 0;
        sample s;
        s.name = name_at(line, i);
        if (i < line.size() && line[i] == '{')
        {
            ++i;
            while (true)
            {
                PROM_SYNTAX(i < line.size(), "labels do not end");
                if (line[i] == '}') { ++i; break; }
                size_t b = i;
                PROM_SYNTAX(letter(line[i]), "bad label name");
                while (i < line.size() && (letter(line[i]) || digit(line[i]))) ++i;
                std::string l = line.substr(b, i - b), v;
                PROM_SYNTAX(i + 1 < line.size() && line[i] == '=' && line[i + 1] == '"', "no value of a label");
                i += 2;
                while (true)
                {
                    PROM_SYNTAX(i < line.size(), "a label value does not end");
                    if (line[i] == '"') { ++i; break; }
                    if (line[i] == '\\')
                    {
                        PROM_SYNTAX(i + 1 < line.size(), "a label value ends with a backslash");
                        char c = line[i + 1];
                        PROM_SYNTAX(c == '\\' || c == '"' || c == 'n', "bad escape");
                        v += c == 'n' ? '\n' : c;
                        i += 2;
                    }
                    else v += line[i++];
                }
                PROM_SYNTAX(!s.tags.count(l), "a label appears twice");
                s.tags[l] = v;
                PROM_SYNTAX(i < line.size() && (line[i] == ',' || line[i] == '}'), "no comma after a label");
                if (line[i] == ',') ++i;
            }
        }
        PROM_SYNTAX(i < line.size() && line[i] == ' ', "no blank before the value");
        while (i < line.size() && line[i] == ' ') ++i;
        std::string num = line.substr(i);
        PROM_SYNTAX(!num.empty() && (digit(num[0]) || num[0] == '-' || num[0] == '+' || num[0] == '.' || num[0] == 'N' || num[0] == 'I'), "no number");
        char* end;
        s.value = std::strtold(num.c_str(), &end);
        PROM_SYNTAX(!*end, "something after the number");
        PROM_SYNTAX(seen.insert(series(s)).second, "a series appears twice");
        sampled.insert(s.name);
        p.samples.push_back(s);
    }
    return p;
}

// the name of a metric and the label of a tag
inline std::string safe(const std::string& s, bool first)
{
    std::string r;
    if (first && !s.empty() && digit(s[0])) r = "_";
    for (char c : s) r += digit(c) || (letter(c)) ? c : '_';
    return r;
}
inline std::string name(const cxxmetrics::metric_path& p)
{
    std::string r;
    bool first = true;
    for (auto& e : p) { if (!first) r += ':'; r += safe(e, first); first = false; }
    return r;
}
inline std::string label(const std::string& s) { return s.empty() ? "_" : safe(s, true); }
inline labels tags(const cxxmetrics::tag_collection& t)
{
    labels l;
    for (auto& x : t) l[label(x.first)] = static_cast<std::string>(x.second);
    return l;
}

// ---- what is expected ----
struct want { std::string name; labels tags; long double value, tol; bool window = false; int64_t ns = 0; bool quantile = false; long double q = 0; };

struct settings { bool scaled = false; double factor = 1; bool mean = true, count = true, rates = true; std::vector<long double> quantiles { 50, 90, 99 }; };

struct expectation
{
    std::vector<want> all;
    std::map<std::string, std::string> types;
    static long double num(const cxxmetrics::metric_value& v) { return static_cast<long double>(v); }
    static double f(const settings& s) { return s.scaled ? s.factor : 1; }

    void add(const std::string& n, labels l, long double v, const settings& s, long double tol = 0)
    {
        want w;
        w.name = n; w.tags = std::move(l);
        w.value = v * f(s);
        w.tol = tol * std::fabs(f(s)) + 2e-6L + 1e-12L * std::fabs(w.value);
        all.push_back(w);
    }
    void add_window(const std::string& n, labels l, int64_t ns, long double v, const settings& s) { add(n, l, v, s); all.back().window = true; all.back().ns = ns; }
    void add_quantile(const std::string& n, labels l, long double q, long double v, const settings& s, long double tol = 0) { add(n, l, v, s, tol); all.back().quantile = true; all.back().q = q; }

    void value(const std::string& n, const labels& l, const cxxmetrics::value_snapshot& x, const settings& s) { add(n, l, num(x.value()), s); }
    void rates(const std::string& n, const labels& l, const cxxmetrics::meter_snapshot& x, const settings& s)
    {
        if (s.mean) { labels m = l; m["window"] = "mean"; add(n, m, num(x.value()), s); }
        for (auto& r : x) add_window(n, l, std::chrono::duration_cast<std::chrono::nanoseconds>(r.first).count(), num(r.second), s);
    }
    static cxxmetrics::metric_value quantile(const cxxmetrics::reservoir_snapshot& x, long double q)
    {
        using namespace cxxmetrics_literals;
        if (q == 50) return x.value<50_p>();
        if (q == 90) return x.value<90_p>();
        if (q == 99) return x.value<99_p>();
        if (q == 75) return x.value<75_p>();
        if (q == 10) return x.value<10_p>();
        if (q == 100) return x.value<100_p>();
        if (q == 0) return x.value<0_p>();
        return x.value<99.9_p>();
    }
    // time: the samples are durations, which are written in whole microseconds
    void hist(const std::string& n, const labels& l, const cxxmetrics::histogram_snapshot& x, const settings& s, bool time = false)
    {
        auto value = [&](const cxxmetrics::metric_value& v) -> long double {
            if (!time) return num(v);
            std::chrono::nanoseconds ns = v;
            return ns.count() / 1000.0L;
        };
        long double tol = time ? 1 + 1e-3L : 0;
        if (s.count) add(n + "_count", l, x.count(), s);
        add(n + "_mean", l, value(x.mean()), s, tol);
        for (auto q : s.quantiles) add_quantile(n, l, q, value(quantile(x, q)), s, tol);
    }
    void timer(const std::string& n, const labels& l, const cxxmetrics::timer_snapshot& x, const settings& s)
    {
        hist(n, l, x, s, true);
        if (s.rates) rates(n + ":rates", l, x.rate(), s);
    }
};

// a window label as a duration
inline int64_t window_ns(const std::string& s)
{
    size_t i = 0;
    int64_t n = 0;
    while (i < s.size() && digit(s[i])) n = n * 10 + (s[i++] - '0');
    if (!i) return -1;
    std::string u = s.substr(i);
    static const std::map<std::string, int64_t> units { { "hr", 3600000000000ll }, { "h", 3600000000000ll }, { "min", 60000000000ll }, { "m", 60000000000ll }, { "sec", 1000000000ll }, { "s", 1000000000ll },
        { "msec", 1000000ll }, { "ms", 1000000ll }, { "usec", 1000ll }, { "us", 1000ll }, { "nsec", 1ll }, { "ns", 1ll } };
    auto f = units.find(u);
    return f == units.end() ? -1 : n * f->second;
}

inline void compare(const page& p, const expectation& e)
{
    std::vector<char> used(p.samples.size());
    for (auto& w : e.all)
    {
        bool found = false;
        for (size_t i = 0; i < p.samples.size(); ++i)
        {
            const sample& s = p.samples[i];
            if (used[i] || s.name != w.name) continue;
            labels l = s.tags;
            if (w.window) { auto f = l.find("window"); if (f == l.end() || window_ns(f->second) != w.ns) continue; l.erase(f); }
            if (w.quantile) { auto f = l.find("quantile"); char* end; if (f == l.end() || f->second.empty() || std::fabs(std::strtold(f->second.c_str(), &end) - w.q / 100) > 1e-7L || *end) continue; l.erase(f); }
            if (l != w.tags) continue;
            SEQ_CHECK(!(std::fabs(s.value - w.value) > w.tol), "%s is written as %.9Lg, expected %.9Lg", series(s).c_str(), s.value, w.value);
            found = true; used[i] = 1;
            break;
        }
        if (!found)
        {
            sample s; s.name = w.name; s.tags = w.tags;
            seq::fail("%s%s is not written", series(s).c_str(), w.window ? seq::fmt(" for the window of %lld ns", (long long)w.ns).c_str() : w.quantile ? seq::fmt(" for the %Lg%% quantile", w.q).c_str() : "");
        }
    }
    for (size_t i = 0; i < used.size(); ++i) SEQ_CHECK(used[i], "%s is written but not expected", series(p.samples[i]).c_str());
    for (auto& t : e.types) { auto f = p.types.find(t.first); SEQ_CHECK(f != p.types.end() && f->second == t.second, "%s has the type %s, expected %s", t.first.c_str(), f == p.types.end() ? "(none)" : f->second.c_str(), t.second.c_str()); }
    for (auto& t : p.types) SEQ_CHECK(e.types.count(t.first), "unexpected type of %s", t.first.c_str());
}

// a registry with known content
struct world
{
    using steady = std::chrono::steady_clock;
    cxxmetrics::metrics_registry<> r;
    std::vector<std::function<void(expectation&)>> known;
    std::function<settings(const cxxmetrics::metric_path&, int)> options = [](const cxxmetrics::metric_path&, int) { return settings(); };
    enum { VALUE, METER, HISTOGRAM, TIMER };

    void typed(expectation& e, const std::string& n, const char* t) { e.types[n] = t; }
    template<typename M> void sum(const cxxmetrics::metric_path& p, const cxxmetrics::tag_collection& t, std::shared_ptr<M> m)
    { known.push_back([=](expectation& e) { const M& c = *m; e.value(name(p), tags(t), c.snapshot(), options(p, VALUE)); typed(e, name(p), "untyped"); }); }
    template<typename M> void average(const cxxmetrics::metric_path& p, const cxxmetrics::tag_collection& t, std::shared_ptr<M> m)
    { known.push_back([=](expectation& e) { const M& c = *m; e.value(name(p), tags(t), c.snapshot(), options(p, VALUE)); typed(e, name(p), "gauge"); }); }
    template<typename M> void meter(const cxxmetrics::metric_path& p, const cxxmetrics::tag_collection& t, std::shared_ptr<M> m)
    { known.push_back([=](expectation& e) { const M& c = *m; e.rates(name(p), tags(t), c.snapshot(), options(p, METER)); typed(e, name(p), "gauge"); }); }
    template<typename M> void histogram(const cxxmetrics::metric_path& p, const cxxmetrics::tag_collection& t, std::shared_ptr<M> m)
    { known.push_back([=](expectation& e) { const M& c = *m; e.hist(name(p), tags(t), c.snapshot(), options(p, HISTOGRAM)); typed(e, name(p), "summary"); }); }
    template<typename M> void timer(const cxxmetrics::metric_path& p, const cxxmetrics::tag_collection& t, std::shared_ptr<M> m)
    { known.push_back([=](expectation& e) { const M& c = *m; e.timer(name(p), tags(t), c.snapshot(), options(p, TIMER)); typed(e, name(p), "summary"); }); }

    std::string text()
    {
        std::ostringstream o;
        write(o);
        return o.str();
    }
    void write(std::ostream& o)
    {
        cxxmetrics_prometheus::prometheus_publisher<cxxmetrics::default_repository> p(r);
        p.write(o);
    }
    // writes the registry and compares
    void verify(bool twice = true)
    {
        expectation e;
        for (auto& k : known) k(e);
        std::string t = text();
        seq::log("written:\n%s", t.c_str());
        compare(read(t), e);
        if (twice) { std::string u = text(); SEQ_CHECK(t == u, "writing again gives another text"); }
        seq::op();
    }
};
}
#endif
