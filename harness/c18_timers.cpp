// @engine seq
// C18: Prometheus text of timers over clocks of every resolution.
#include "prom.hpp"
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
namespace
{
using steady = std::chrono::steady_clock;
using tres = simple_reservoir<steady::duration, 3>;
constexpr period::value S1 = period::value(time::seconds(1)), S10 = period::value(time::seconds(10));
}
// timers over clocks of every resolution
namespace
{
template<typename D>
struct clock_of
{
    using duration = D; using rep = typename D::rep; using period = typename D::period; using time_point = std::chrono::time_point<clock_of>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::nanoseconds(seq::now()))); }
};
template<typename D>
void timed()
{
    using R = simple_reservoir<D, 3>;
    prom::world w;
    auto m = w.r.timer<S1, clock_of<D>, R, S10>("m", R(), { { "k", "v" } });
    int n = 1 + seq::choose(4);
    static const int64_t v[] = { 1, 999, 1500, 2000000 };
    for (int i = 0; i < n; ++i) m->update(D(seq::pick(v)));
    w.timer("m", { { "k", "v" } }, m);
    w.verify();
}
}
SEQ_HARNESS(c18_timers) { timed<std::chrono::nanoseconds>(); }
// clocks of other resolutions
SEQ_HARNESS(c18_timers_of_coarse_clocks)
{
    switch (seq::choose(4))
    {
        case 0: timed<std::chrono::microseconds>(); break;
        case 1: timed<std::chrono::milliseconds>(); break;
        case 2: timed<std::chrono::seconds>(); break;
        default: timed<std::chrono::duration<int64_t, std::ratio<1, 10000000>>>(); break;
    }
}

