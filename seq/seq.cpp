#include "seq.hpp"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <new>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

namespace
{
struct H { std::string name; void (*fn)(); unsigned flags; };
std::vector<H>& hs() { static auto* v = new std::vector<H>(); return *v; }
H* cur = nullptr;
struct N { int n, c; };
std::vector<N> stk;
size_t depth = 0;
bool replay = false, repeating = false, tier1 = false;
int part_i = 0, part_n = 1;
unsigned long executions = 0, nodes = 0, ops = 0, checks = 0, maxdepth = 0;
std::map<std::string, unsigned long>* outcomes;
std::string outdir = ".", kind, message, replay_file;
std::string* history;
int64_t vnow;
bool active = false;
volatile unsigned long progress = 0;
long live = 0;
unsigned long bytes = 0;

struct violation_exc { };
struct own { long l = live; ~own() { live = l; } };   // the engine's own allocations do not count

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    char b[16];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

void print_stats(const char* status, bool capped)
{
    printf("{\"harness\":%s,\"status\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"checks\":%lu,\"max_depth\":%lu,\"capped\":%s,\"outcomes\":{",
        jstr(cur->name).c_str(), status, executions, ops, nodes, checks, maxdepth, capped ? "true" : "false");
    bool first = true; int n = 0;
    for (auto& o : *outcomes) { if (n++ >= 40) break; printf("%s%s:%lu", first ? "" : ",", jstr(o.first).c_str(), o.second); first = false; }
    printf("},\"distinct_outcomes\":%zu,\"kind\":%s,\"message\":%s,\"replay\":%s}\n", outcomes->size(), jstr(kind).c_str(), jstr(message).c_str(), jstr(replay_file).c_str());
    fflush(stdout);
}

void write_replay()
{
    replay_file = outdir + "/" + cur->name + ".replay";
    FILE* f = fopen(replay_file.c_str(), "w");
    if (!f) return;
    fprintf(f, "harness %s\nkind %s\nchoices", cur->name.c_str(), kind.c_str());
    for (size_t i = 0; i < depth && i < stk.size(); ++i) fprintf(f, " %d", stk[i].c);
    fprintf(f, "\n--\n%s\n%s", message.c_str(), history ? history->c_str() : "");
    fclose(f);
}

void die_with(const char* k, const std::string& m)
{
    active = false;
    kind = k; message = m;
    write_replay();
    print_stats("violation", false);
    fprintf(stderr, "VIOLATED %s: %s: %s\n%s", cur->name.c_str(), k, m.c_str(), history->c_str());
    fflush(stderr);
    _exit(1);
}

} // namespace
extern "C" __attribute__((weak)) void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
extern "C" __attribute__((visibility("default"))) void __ubsan_on_report()
{
    if (!active) return;
    active = false;
    const char *k = "", *m = "", *f = ""; unsigned l = 0, c = 0; char* a = nullptr;
    if (&__ubsan_get_current_report_data) __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a);
    const char* sl = f ? strrchr(f, '/') : nullptr;
    die_with("undefined-behaviour", seq::fmt("%s (%s:%u)", m ? m : "", sl ? sl + 1 : (f ? f : ""), l));
}
namespace
{
void on_death() { if (active) { active = false; die_with("sanitizer", "sanitizer error (see log) in the current history"); } }
void on_sig(int s)
{
    if (!active) _exit(4);
    active = false;
    die_with(s == SIGALRM ? "hang" : "crash", s == SIGALRM ? "the history did not finish" : std::string("signal ") + strsignal(s));
}
unsigned long last = 0; int stuck = 0;
void on_timer(int)
{
    if (active && progress == last) { if (++stuck >= 3) on_sig(SIGALRM); } else stuck = 0;
    last = progress;
}
void on_terminate()
{
    if (active) die_with("terminate", "std::terminate was called (exception out of a noexcept function)");
    _exit(4);
}

void run_once()
{
    depth = 0;
    vnow = 1000000000000000000ll;
    ++progress;
    history->clear();
    long l0 = live;
    active = true;
    try { cur->fn(); }
    catch (violation_exc&) { active = false; throw; }
    catch (std::exception& e)
    {
        die_with("exception", std::string("unexpected exception: ") + e.what());
    }
    active = false;
    if ((cur->flags & seq::F_LEAK) && live != l0) die_with("leak", seq::fmt("%ld heap blocks leaked", live - l0));
}
}

namespace seq
{
int choose(int n)
{
    if (n <= 1) return 0;
    if (depth < stk.size())
    {
        if (stk[depth].n == 0) stk[depth].n = n;   // forced replay
        if (stk[depth].n != n && repeating) return stk[depth].c < n ? stk[depth++].c : (++depth, n - 1);
        if (stk[depth].n != n) { fprintf(stderr, "seq: DIVERGENCE in %s: %d alternatives, expected %d\n", cur->name.c_str(), n, stk[depth].n); _exit(3); }
        return stk[depth++].c;
    }
    int c = 0;
    if (depth == 0 && part_n > 1)
    {
        c = part_i;
        if (c >= n) { // nothing for this part
            print_stats("ok", false);
            _exit(0);
        }
    }
    ++nodes;
    { own o; stk.push_back(N{ n, c }); }
    ++depth;
    return c;
}
void fail_str(const std::string& s)
{
    kind = "assert"; message = s;
    throw violation_exc();
}
void op(long n) { ops += n; ++progress; }
void check(long n) { checks += n; }
void outcome(const std::string& s) { own o; ++(*outcomes)[s]; }
bool replaying() { return replay; }
void log_str(const std::string& s) { own o; *history += "  " + s + "\n"; }
bool thorough() { return tier1; }
void harness_register(const char* name, void (*fn)(), unsigned flags) { hs().push_back(H{ name, fn, flags }); }
long live_blocks() { return live; }
unsigned long allocated_bytes() { return bytes; }
int64_t now() { return vnow; }
void advance(int64_t ns) { vnow += ns; }
void set_now(int64_t ns) { vnow = ns; }

int rt_main(int argc, char** argv)
{
    outcomes = new std::map<std::string, unsigned long>();
    history = new std::string();
    std::string name, rf;
    double tl = 0;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--thorough") tier1 = true;
        else if (a == "--out" && i + 1 < argc) outdir = argv[++i];
        else if (a == "--time" && i + 1 < argc) tl = atof(argv[++i]);
        else if (a == "--replay" && i + 1 < argc) rf = argv[++i];
        else if (a == "--part" && i + 2 < argc) { part_i = atoi(argv[i + 1]); part_n = atoi(argv[i + 2]); i += 2; }
        else name = a;
    }
    if (list) { for (auto& h : hs()) printf("%s %u\n", h.name.c_str(), h.flags); fflush(stdout); _exit(0); }
    std::vector<int> ch;
    if (!rf.empty())
    {
        FILE* f = fopen(rf.c_str(), "r");
        if (!f) { perror("replay"); _exit(3); }
        static char line[1 << 16];
        while (fgets(line, sizeof line, f))
        {
            std::string s(line);
            while (!s.empty() && s.back() == '\n') s.pop_back();
            if (s == "--") break;
            if (s.compare(0, 8, "harness ") == 0) name = s.substr(8);
            if (s.compare(0, 7, "choices") == 0) { const char* p = s.c_str() + 7; char* e; while (true) { long v = strtol(p, &e, 10); if (e == p) break; ch.push_back((int)v); p = e; } }
        }
        fclose(f);
    }
    for (auto& h : hs()) if (h.name == name) cur = &h;
    if (!cur) { fprintf(stderr, "seq: no harness %s\n", name.c_str()); _exit(3); }
    if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(&on_death);
    std::set_terminate(&on_terminate);
    stack_t ss {}; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    struct sigaction sa {}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    struct sigaction st {}; st.sa_handler = on_timer; st.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &st, nullptr);
    itimerval tv {}; tv.it_interval.tv_sec = 10; tv.it_value.tv_sec = 10; setitimer(ITIMER_REAL, &tv, nullptr);

    if (!rf.empty())
    {
        replay = true;
        for (int c : ch) stk.push_back(N{ 0, c });
        try { run_once(); }
        catch (violation_exc&) { printf("VIOLATED %s: %s: %s\n%s", cur->name.c_str(), kind.c_str(), message.c_str(), history->c_str()); fflush(stdout); _exit(1); }
        printf("no violation on replay\n"); fflush(stdout);
        _exit(0);
    }
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    bool capped = false;
    try
    {
        while (true)
        {
            run_once();
            ++executions;
            if (depth > maxdepth) maxdepth = depth;
            stk.resize(depth);
            while (!stk.empty())
            {
                int step = stk.size() == 1 ? part_n : 1;
                if (stk.back().c + step < stk.back().n) { stk.back().c += step; break; }
                stk.pop_back();
            }
            if (stk.empty()) break;
            ++nodes;
            if (tl > 0 && (executions & 15) == 0)
            {
                timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > tl) { capped = true; break; }
            }
        }
    }
    catch (violation_exc&)
    {
        // reproduce with history; an execution that comes out differently another time depends on indeterminate
        // memory (everything else here is deterministic), which is no less of a violation
        std::string k = kind, m = message;
        replay = true;
        stk.resize(depth);
        std::vector<N> prefix = stk;
        repeating = true;
        bool again = false;
        for (int i = 0; i < 4 && !again; ++i)
        {
            stk = prefix;
            try { run_once(); } catch (violation_exc&) { again = kind == k; }
        }
        if (!again || m != message)
        {
            kind = k;
            message = m + " (on this execution; repeated, it came out differently)";
            stk = prefix;
        }
        write_replay();
        print_stats("violation", false);
        fprintf(stderr, "VIOLATED %s: %s: %s\n%s", cur->name.c_str(), kind.c_str(), message.c_str(), history->c_str());
        fflush(stderr);
        _exit(1);
    }
    print_stats(capped ? "capped" : "ok", capped);
    _exit(0);
}
}

// virtual clocks
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vnow)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vnow)); }
}}}

// counted heap
static void* cnt_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++live; bytes += n; return p; }
static void cnt_del(void* p) { if (p) { --live; free(p); } }
void* operator new(size_t n) { return cnt_new(n); }
void* operator new[](size_t n) { return cnt_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return cnt_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return cnt_new(n); }
void operator delete(void* p) noexcept { cnt_del(p); }
void operator delete[](void* p) noexcept { cnt_del(p); }
void operator delete(void* p, size_t) noexcept { cnt_del(p); }
void operator delete[](void* p, size_t) noexcept { cnt_del(p); }

int main(int argc, char** argv) { return seq::rt_main(argc, argv); }
