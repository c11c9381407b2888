// @engine seq
// C18: Prometheus text of meters and timers with all kinds of windows.
#include "prom.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
namespace
{
using steady = std::chrono::steady_clock;
using tres = simple_reservoir<steady::duration, 3>;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10));
}
// meters with all kinds of windows
namespace
{
template<period::value I, period::value... W>
void windows(int marks, int64_t wait)
{
    prom::world w;
    bool timer = seq::choose(2);
    tag_collection t;
    if (seq::choose(2)) t = tag_collection { { "k", "v" } };
    seq::set_now(1000000000ll);
    if (timer)
    {
        auto m = w.r.timer<I, steady, tres, W...>("m", tres(), t);
        for (int i = 0; i <= marks; ++i) m->update(steady::duration(5000));
        seq::advance(wait);
        m->snapshot();
        w.timer("m", t, m);
    }
    else
    {
        auto m = w.r.meter<I, W...>("m", t);
        for (int i = 0; i < marks; ++i) m->mark(i + 2);
        seq::advance(wait);
        m->snapshot();
        w.meter("m", t, m);
    }
    w.verify();
}
}
SEQ_HARNESS(c18_windows)
{
    int n = seq::choose(3);
    static const int64_t waits[] = { 0, 1500000000ll, 3600000000000ll };
    int64_t wait = seq::pick(waits);
    switch (seq::choose(9))
    {
        case 0: windows<1_sec, 1_min>(n, wait); break;
        case 1: windows<1_sec, 60_min, 90_min, 1_hour, 2_hour>(n, wait); break;
        case 2: windows<1_sec, 60_sec, 61_sec, 90_sec, 119_sec, 120_sec>(n, wait); break;
        case 3: windows<1_msec, 999_msec, 1_sec, 1001_msec, 1500_msec, 2_sec>(n, wait); break;
        case 4: windows<1_micro, 999_micro, 1_msec, 1500_micro, 1_sec>(n, wait); break;
        case 5: windows<1_sec, 24_hour, 25_hour, 36_hour, 1_hour, 24_hour>(n, wait); break;
        case 6: windows<1_sec, 5_min, 1_min, 15_min, 1_min>(n, wait); break;
        case 7: windows<1_min, 3600_sec, 3599_sec, 3601_sec, 1_hour>(n, wait); break;
        default: windows<1_sec>(n, wait); break;
    }
}

