// Reference model of a moving average: the defining recurrence in long double.
#ifndef EWMA_MODEL_HPP
#define EWMA_MODEL_HPP
#include <cmath>
#include <cstdint>

struct ewma_model
{
    long double alpha;
    int64_t interval;
    int64_t last;
    long double rate = 0, pending = 0;
    bool seeded = false;

    ewma_model(int64_t window_ns, int64_t interval_ns, int64_t now) :
        alpha(1 - std::exp(-(long double)interval_ns / (2.0L * window_ns))), interval(interval_ns), last(now) { }

    bool due(int64_t at) const { return at >= last && at - last >= interval; }

    long double value(int64_t at) const
    {
        if (at < last) return rate;
        int64_t n = (at - last) / interval;
        if (!seeded && n < 1) return pending;
        long double r = seeded ? rate + alpha * (pending - rate) : pending;
        if (n > 1) r *= std::pow(1 - alpha, (long double)(n - 1));
        return r;
    }
    long double tick_and_read(int64_t at)
    {
        long double r = value(at);
        if (due(at)) { rate = r; pending = 0; seeded = true; last = at; }
        return r;
    }
    // late: the clock was read before another thread ticked
    void mark(int64_t at, long double v, bool late = false)
    {
        if (at < last && !late) return;
        tick_and_read(at);
        pending += v;
    }
    static bool close(long double got, long double want, long double tol = 1e-9L)
    {
        long double d = got - want;
        return std::isfinite(got) && (d < 0 ? -d : d) <= tol * (1 + (want < 0 ? -want : want));
    }
};
#endif
