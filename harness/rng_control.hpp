// Takes control of the engine behind std::default_random_engine, so that the random draws of the library
// become choice points.  Include before any library header.  If the library ever draws from another
// source, `rngc::draws` stays 0 and harnesses fall back to rules that hold for every draw.
#ifndef RNG_CONTROL_HPP
#define RNG_CONTROL_HPP
#include <random>
#include <cstdint>

namespace rngc
{
using fn = uint_fast32_t (*)();
inline fn& source() { static fn f = nullptr; return f; }
inline unsigned long& draws() { static unsigned long d = 0; return d; }
constexpr uint_fast32_t lo = 1, hi = 2147483646;
// value at position num/den of the engine's range
inline uint_fast32_t at(unsigned long num, unsigned long den)
{
    return lo + static_cast<uint_fast32_t>((static_cast<unsigned long long>(hi - lo) * num) / den);
}
}

namespace std
{
template<>
class linear_congruential_engine<uint_fast32_t, 16807UL, 0UL, 2147483647UL>
{
    uint_fast32_t x_;
public:
    using result_type = uint_fast32_t;
    static constexpr result_type default_seed = 1u;
    explicit linear_congruential_engine(result_type s = 1) : x_(s ? s : 1) { }
    void seed(result_type s = 1) { x_ = s ? s : 1; }
    static constexpr result_type min() { return 1; }
    static constexpr result_type max() { return 2147483646; }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    result_type operator()()
    {
        x_ = static_cast<uint_fast32_t>((static_cast<unsigned long long>(x_) * 16807ULL) % 2147483647ULL);
        ++rngc::draws();
        return rngc::source() ? rngc::source()() : x_;
    }
    friend bool operator==(const linear_congruential_engine& a, const linear_congruential_engine& b) { return a.x_ == b.x_; }
};
}
#endif
