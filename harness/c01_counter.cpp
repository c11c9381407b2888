// C01: concurrent counter operations are linearizable (all programs of the given shape, all schedules).
#include <mc.hpp>
#include <cxxmetrics/metric.hpp>
#include <cxxmetrics/counter.hpp>
using namespace cxxmetrics;

namespace
{
enum { INC, POSTINC, DEC, ADD, SUB, SET, INCR, READ, CONV, SNAP, NOPS };
const char* names[] = { "++c", "c++", "--c", "c+=", "c-=", "c=", "incr", "value", "convert", "snapshot" };

template<typename T>
void apply(counter<T>& c, mc::history<12>& h, int op, T arg)
{
    auto* o = h.begin(op, (long long)arg);
    T r{};
    switch (op)
    {
    case INC: ++c; break;
    case POSTINC: r = c++; break;
    case DEC: --c; break;
    case ADD: c += arg; break;
    case SUB: c -= arg; break;
    case SET: c = arg; break;
    case INCR: r = c.incr(arg); break;
    case READ: r = c.value(); break;
    case CONV: r = static_cast<T>(c); break;
    case SNAP: { auto s = c.snapshot(); mc::quiet q; r = static_cast<T>(s.value()); break; }
    }
    h.end(o, (long long)r);
}

template<typename T>
bool step(T& s, const mc::op_rec& o)
{
    T arg = (T)o.arg, ret = (T)o.ret;
    switch (o.code)
    {
    case INC: s = (T)(s + 1); return true;
    case POSTINC: { T old = s; s = (T)(s + 1); return ret == old; }
    case DEC: s = (T)(s - 1); return true;
    case ADD: s = (T)(s + arg); return true;
    case SUB: s = (T)(s - arg); return true;
    case SET: s = arg; return true;
    case INCR: s = (T)(s + arg); return ret == s;
    default: return ret == s;
    }
}

template<typename T>
void verdict(mc::history<12>& h, T init, T final)
{
    mc::quiet q;
    // the final read is an operation after all others
    auto* o = &h.ops[h.n++];
    o->code = READ; o->ret = (long long)final; o->call = mc::mc_tick(); o->done = mc::mc_tick();
    if (mc::linearizable(h.ops, h.n, init, [](T& s, const mc::op_rec& r) { return step<T>(s, r); })) return;
    std::string d;
    for (int i = 0; i < h.n; ++i) d += " [t" + std::to_string(h.ops[i].thread) + " " + names[h.ops[i].code] + "(" + std::to_string(h.ops[i].arg) + ")=" + std::to_string(h.ops[i].ret) + "]";
    mc::fail("no order of the operations explains the results, starting from %lld:%s", (long long)init, d.c_str());
}

// n threads of k operations each; update/read kinds are choices
template<typename T, int K>
void program(int n, T init)
{
    static const T args[] = { 5, 3, 70, 11, 20, 2 };
    counter<T> c(init);
    mc::history<12> h;
    int ops[3][2];
    for (int i = 0; i < n; ++i) for (int k = 0; k < K; ++k) ops[i][k] = mc::choose(NOPS);
    auto th = [&](int i) { for (int k = 0; k < K; ++k) apply<T>(c, h, ops[i][k], args[2 * i + k]); };
    if (n == 2) mc::parallel([&] { th(0); }, [&] { th(1); });
    else mc::parallel([&] { th(0); }, [&] { th(1); }, [&] { th(2); });
    T fin = c.value();
    MC_CHECK(fin == c.value() && fin == static_cast<T>(c) && fin == static_cast<T>(c.snapshot().value()), "value, conversion and snapshot disagree at rest");
    verdict<T>(h, init, fin);
}

// only updates: the sum is exact
template<typename T>
void sums(int a, int b, int d)
{
    counter<T> c(T(100));
    auto add = [&](int n, T v) { for (int i = 0; i < n; ++i) { if (i & 1) c -= v; else c.incr(v); } };
    T want = 100;
    auto ref = [&](int n, T v) { for (int i = 0; i < n; ++i) want = (T)(want + (i & 1 ? (T)-v : v)); };
    ref(a, 3); ref(b, 5); ref(d, 7);
    if (d) mc::parallel([&] { add(a, 3); }, [&] { add(b, 5); }, [&] { add(d, 7); });
    else mc::parallel([&] { add(a, 3); }, [&] { add(b, 5); });
    MC_CHECK(c.value() == want, "final value %lld, expected %lld", (long long)c.value(), (long long)want);
}
}

MC_HARNESS(c01_2x1_i64, 0) { program<int64_t, 1>(2, 7); }
MC_HARNESS(c01_2x1_u64, 0) { program<uint64_t, 1>(2, 0); }
MC_HARNESS(c01_2x1_i32, 0) { program<int, 1>(2, -7); }
MC_HARNESS(c01_2x1_u32, 0) { program<unsigned, 1>(2, 1); }
MC_HARNESS(c01_3x1_i64, 0) { program<int64_t, 1>(3, 7); }
MC_HARNESS(c01_2x2_i64, 0) { program<int64_t, 2>(2, 7); }
MC_HARNESS(c01_2x2_u64, mc::F_THOROUGH) { program<uint64_t, 2>(2, 0); }
MC_HARNESS(c01_2x2_u16, mc::F_THOROUGH) { program<uint16_t, 2>(2, 65530); }
MC_HARNESS(c01_sum_2, 0) { sums<int64_t>(3, 3, 0); }
MC_HARNESS(c01_sum_3, 0) { sums<int64_t>(2, 2, 2); }
MC_HARNESS(c01_sum_u, 0) { sums<uint64_t>(2, 2, 1); }
MC_HARNESS(c01_sum_weak, mc::F_WEAK_CAS) { sums<int64_t>(2, 2, 0); }
MC_HARNESS(c01_sum_5, mc::F_THOROUGH) { sums<int64_t>(4, 4, 1); }

MC_MAIN()
