//@ level: model_checking
//@ technique: explicit-state model checking of the real bitset (BFS to the fixpoint of reachable bit patterns) plus exhaustive index enumeration
//@ note: For N up to 12 every reachable pattern and every operation on it; for larger sizes every operation or pair of operations from four base patterns. Out-of-range indexes are observed through the failure hooks.
//@ cxx: -O1 -fsanitize=address
//@ repo: to_text.cpp
//@ bounds: N = 1,2,7,8,9,12 to the fixpoint; N = 15,16,17,31,32,33: every operation pair from four patterns; N = 63,64,65,200,1000: every operation from four patterns (pairs thorough); indexes up to N+70 and the largest ones; every index of a set of 70001
//@ assume: ce::os::log and ce::os::error are supplied by the harness and leave by an exception, so that a failed assertion is observed instead of continued
#include "mc.h"
#include "ce/ce.h"
#include <cstring>
#include <vector>
#include <type_traits>
using namespace mc;

static int reports;
struct stopped { };
void ce::os::log(int, int, char const* [][2]) { }
bool ce::os::error(int, int, char const* [][2]) { ++reports; throw stopped{}; }
void ce::os::debug_out(char const*) { }

template<size_t N> struct world
{
    struct mem { unsigned long long g0; ce::bitset<N> b; unsigned char g1[8]; };
    static inline mem m;
    std::vector<bool> ref = std::vector<bool>(N, false);
    world() { memset((void*)&m, 0x5e, sizeof m); m.b.reset(); }
    void check(char const* what)
    {
        for (auto g : m.g1) MC_CHECK(g == 0x5e, "%s: memory behind the bitset changed", what);
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull, "%s: memory before the bitset changed", what);
        MC_CHECK(m.b.get_size() == N, "%s: get_size %zu", what, size_t(m.b.get_size()));
        ce::bitset<N> const& c = m.b;
        for (size_t i = 0; i < N; ++i) MC_CHECK(c[i] == ref[i], "%s: bit %zu is %d expected %d", what, i, int(c[i]), int(ref[i]));
    }
    static constexpr int nops = 2 + 4 * int(N);
    void op(int k)
    {
        char what[60];
        if (k == 0) { snprintf(what, sizeof what, "set()"); m.b.set(); ref.assign(N, true); }
        else if (k == 1) { snprintf(what, sizeof what, "reset()"); m.b.reset(); ref.assign(N, false); }
        else
        {
            size_t i = size_t(k - 2) / 4; int a = (k - 2) % 4;
            if (a == 0) { snprintf(what, sizeof what, "set(%zu)", i); m.b.set(i); ref[i] = true; }
            else if (a == 1) { snprintf(what, sizeof what, "reset(%zu)", i); m.b.reset(i); ref[i] = false; }
            else { snprintf(what, sizeof what, "set(%zu, %d)", i, a - 2); m.b.set(i, a == 3); ref[i] = a == 3; }
        }
        trace("%s", what); check(what);
    }
    static u64 body(unsigned char const* hist, int n, bool&)
    {
        world w; w.check("start");
        for (int i = 0; i < n; ++i) w.op(hist[i]);
        hasher h; h.b(&m, sizeof m);
        hasher o; for (size_t i = 0; i < N; ++i) o.u(w.ref[i]); outcome(o);
        return h;
    }
    // every pair of operations from four base patterns
    static void pairs()
    {
        int base = choose(4), a = choose(nops), b = choose(nops); step(2);
        world w;
        if (base == 1) w.op(0);
        if (base >= 2) for (size_t i = 0; i < N; ++i) if (i % 2 == size_t(base - 2)) w.op(2 + int(i) * 4);
        w.op(a); w.op(b);
        hasher h; h.b(&m, sizeof m); state(h); outcome(h);
        if (want_sample()) sample("bitset<%zu> base %d then operations %d and %d", N, base, a, b);
    }
    static void single()
    {
        int base = choose(4), a = choose(nops); step();
        world w;
        if (base == 1) w.op(0);
        if (base >= 2) for (size_t i = 0; i < N; ++i) if (i % 2 == size_t(base - 2)) { w.m.b.set(i); w.ref[i] = true; }
        w.check("base pattern");
        w.op(a);
        hasher h; h.b(&m, sizeof m); state(h); outcome(h);
    }
    static void outside()
    {
        world w; if (choose(2)) w.op(0);
        size_t tab[80]; int n = 0; for (size_t i = N; i < N + 70; ++i) tab[n++] = i;
        for (size_t i : { ~size_t(0), ~size_t(0) - 7, size_t(1) << 32, (size_t(1) << 32) + N - 1, size_t(1) << 63 }) tab[n++] = i;
        size_t i = tab[choose(n)]; int a = choose(5); step();
        trace("operation %d on index %zu of bitset<%zu>", a, i, N);
        reports = 0; bool threw = false;
        try
        {
            if (a == 0) { bool v = m.b[i]; (void)v; } else if (a == 1) m.b.set(i); else if (a == 2) m.b.reset(i); else m.b.set(i, a == 3);
        }
        catch (stopped) { threw = true; }
        MC_CHECK(threw && reports == 1, "index %zu of a bitset of %zu was accepted", i, N);
        w.check("refused operation");
        hasher h; h.u(N); h.u(u64(a)); h.u(i); state(h); outcome(h);
    }
};
#define W(N) MC_BFS(all##N, (world<N>::nops), 40, 40) { return world<N>::body(hist, n, ok); } MC_DFS(outside##N) { world<N>::outside(); }
W(1) W(2) W(7) W(8) W(9) W(12)
#define X(N) MC_DFS(pairs##N) { world<N>::pairs(); } MC_DFS(outside##N) { world<N>::outside(); }
X(15) X(16) X(17) X(31) X(32) X(33)
// larger sizes: every single operation from the four base patterns; pairs in the thorough tier
#define Y(N) MC_DFS(single##N) { world<N>::single(); } MC_DFS_THOROUGH(pairs##N) { world<N>::pairs(); } MC_DFS(outside##N) { world<N>::outside(); }
Y(63) Y(64) Y(65) Y(200) Y(1000)
// every index of large sets, alone in a clear and in a full set, and around it
template<size_t N> static void far(u64 lo, u64 hi)
{
    static struct { unsigned char g0[16]; ce::bitset<N> b; unsigned char g1[16]; } m;
    memset(&m, 0, sizeof m); MC_CHECK(m.b.get_size() == N, "get_size of a bitset of %zu is %zu", N, size_t(m.b.get_size()));
    for (u64 i = lo; i < hi; ++i)
    {
        if (i % 64 == 0) at(i);
        for (int full = 0; full < 2; ++full)
        {
            step(3);
            if (i == lo) { if (full) m.b.set(); else m.b.reset(); }
            else memset(&m.b, full ? 0xff : 0, sizeof m.b);
            if (full) { if (i % 2) m.b.reset(i); else m.b.set(i, false); } else { if (i % 2) m.b.set(i); else m.b.set(i, true); }
            auto const* d = reinterpret_cast<unsigned char const*>(&m.b);
            size_t other = 0; for (size_t k = 0; k < sizeof m.b; ++k) other += d[k] != (full ? 0xff : 0);
            MC_CHECK(other == 1, "setting bit %llu of %zu changed %zu bytes", i, N, other);
            for (size_t k = i < 9 ? 0 : i - 9; k < N && k < i + 10; ++k) MC_CHECK(m.b[k] == ((k == i) != (full == 1)), "bit %zu of %zu after changing bit %llu", k, N, i);
            for (size_t k : { size_t(i % 65536), size_t(i % 256), size_t(0), N - 1, size_t(i ^ 65536) }) if (k < N) MC_CHECK(m.b[k] == ((k == i) != (full == 1)), "bit %zu of %zu after changing bit %llu", k, N, i);
            for (unsigned char g : m.g0) MC_CHECK(g == 0, "guard"); for (unsigned char g : m.g1) MC_CHECK(g == 0, "guard");
        }
    }
}
MC_SWEEP(far70001, 70001, 70001, 1 << 10) { far<70001>(lo, hi); }
