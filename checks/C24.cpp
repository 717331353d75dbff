//@ level: model_checking
//@ technique: stateless model checking of the real atomic templates: every small program of concurrent operations under every interleaving, every read the C++ memory model allows and spurious weak compare-exchange failures, each history checked for linearizability against the sequential operators
//@ note: Complete for the stated shapes (2 threads x 2 operations, 3 threads x 1) over ten operations and eight types; the memory model is an operational view machine without load buffering.
//@ cxx: -O1 -fsanitize=thread
//@ extra: tsanrt.cpp
//@ bounds: 2 threads x 2 operations and 3 threads x 1 operation for int, unsigned char and float, 2+1 operations for the other types (thorough: 2 x 3 for int, unsigned char, float and double and 3 x 2 for a reduced alphabet) over load, store, exchange, compare-exchange hit and miss, fetch add, sub, xor, and, or; int, unsigned char, signed char, short, unsigned, long long, pointer, float, double; 1 (2) spurious failures; all 8 bit values x operands sequentially
//@ assume: the sanitizer instrumentation delivers every atomic operation with its memory order; hosts execute what the C++ memory model allows
#include "mcsched.h"
#include "ce/atomic.h"
#include <cstring>
#include <climits>
#include <limits>
#include <type_traits>
using namespace mc;

enum op { LOAD, STORE, XCHG, CAS_HIT, CAS_MISS, ADD, SUB, XOR, AND, OR, NOPS };
static char const* const names[] = { "load", "store", "exchange", "cas", "cas'", "fetch_add", "fetch_sub", "fetch_xor", "fetch_and", "fetch_or" };
template<class V> struct call { int o; V a, e; V r; bool ok; u64 t0, t1; };   // argument, expected; result, success

static int arena[64];
template<class V> struct dom
{
    static constexpr int nops = std::is_integral_v<V> ? NOPS : XOR;
    static V init(int k) { if constexpr (std::is_floating_point_v<V>) return k == 0 ? V(1.5) : k == 1 ? V(-0.0) : V(3e30); else return k == 0 ? V(5) : k == 1 ? std::numeric_limits<V>::max() : std::numeric_limits<V>::min(); }
    static V arg(int i) { if constexpr (std::is_floating_point_v<V>) return V(0.25) * V(1 << i); else { V const v[] = { V(3), V(6), V(12), V(24), V(1), V(40) }; return v[i]; } }
    static V delta(int i) { return arg(i); }
    using D = V;
    static V plus(V a, V d) { if constexpr (std::is_integral_v<V>) return V(std::make_unsigned_t<V>(std::make_unsigned_t<V>(a) + std::make_unsigned_t<V>(d))); else return a + d; }
    static V minus(V a, V d) { if constexpr (std::is_integral_v<V>) return V(std::make_unsigned_t<V>(std::make_unsigned_t<V>(a) - std::make_unsigned_t<V>(d))); else return a - d; }
};
template<> struct dom<int*>
{
    static constexpr int nops = XOR;
    static int* init(int k) { return arena + 8 + 8 * k; }
    static int* arg(int i) { return arena + 40 + i; }
    static long delta(int i) { return i + 1; }
    static int* plus(int* a, long d) { return a + d; }
    static int* minus(int* a, long d) { return a - d; }
};
template<class V> static bool same(V a, V b) { return memcmp(&a, &b, sizeof(V)) == 0; }

// one operation of the library
template<class V> static void perform(ce::atomic<V>& a, call<V>& c, int i)
{
    c.t0 = stamp();
    switch (c.o)
    {
    case LOAD: c.r = ce::atomic_load(a); break;
    case STORE: ce::atomic_store(a, c.a); break;
    case XCHG: c.r = ce::atomic_exchange(a, c.a); break;
    case CAS_HIT: case CAS_MISS: { V e = c.e; c.ok = ce::atomic_compare_exchange(a, e, c.a); c.r = e; break; }
    case ADD: c.r = ce::atomic_fetch_add(a, dom<V>::delta(i)); break;
    case SUB: c.r = ce::atomic_fetch_sub(a, dom<V>::delta(i)); break;
    default:
        if constexpr (std::is_integral_v<V>)
        {
            if (c.o == XOR) c.r = ce::atomic_fetch_xor(a, c.a);
            else if (c.o == AND) c.r = ce::atomic_fetch_and(a, c.a);
            else c.r = ce::atomic_fetch_or(a, c.a);
        }
    }
    c.t1 = stamp();
}
// the sequential meaning
template<class V> static bool meaning(V& s, call<V> const& c, int i)
{
    V old = s;
    switch (c.o)
    {
    case LOAD: break;
    case STORE: s = c.a; return true;
    case XCHG: s = c.a; break;
    case CAS_HIT: case CAS_MISS: { bool hit = same(old, c.e); if (hit != c.ok) return false; if (hit) { s = c.a; return same(c.r, c.e); } return same(c.r, old); }
    case ADD: s = dom<V>::plus(old, dom<V>::delta(i)); break;
    case SUB: s = dom<V>::minus(old, dom<V>::delta(i)); break;
    default: if constexpr (std::is_integral_v<V>) s = c.o == XOR ? V(old ^ c.a) : c.o == AND ? V(old & c.a) : V(old | c.a);
    }
    return same(c.r, old);
}
template<class V> static bool linear(call<V> const* h, int const* per, int nt, int const* at, V s, V final, int left)
{
    if (left == 0) return same(s, final);
    for (int t = 0; t < nt; ++t)
    {
        if (at[t] >= per[t]) continue;
        auto& c = h[t * 3 + at[t]];
        bool first = true;      // no other pending operation finished before this one began
        for (int u = 0; u < nt; ++u) if (u != t && at[u] < per[u] && h[u * 3 + at[u]].t1 < c.t0) first = false;
        if (!first) continue;
        V n = s;
        if (!meaning(n, c, t * 2 + at[t])) continue;
        int k[4]; memcpy(k, at, sizeof(int) * size_t(nt)); ++k[t];
        if (linear(h, per, nt, k, n, final, left - 1)) return true;
    }
    return false;
}
template<class V> static void program(int nt, int const* per, int alphabet, int ninit, int preempt)
{
    static call<V> h[12]; memset((void*)h, 0, sizeof h);
    V init = dom<V>::init(choose(ninit)); int total = 0;
    for (int t = 0; t < nt; ++t) for (int k = 0; k < per[t]; ++k)
    {
        auto& c = h[t * 3 + k]; c.o = choose(alphabet < dom<V>::nops ? alphabet : dom<V>::nops); c.a = dom<V>::arg(t * 2 + k); ++total;
        c.e = c.o == CAS_HIT ? init : t == 0 ? dom<V>::arg(2) : dom<V>::arg(0);
    }
    // threads of the same shape are interchangeable up to their arguments; nothing is pruned
    ce::atomic<V> a{ init };
    std::vector<std::function<void()>> ths;
    for (int t = 0; t < nt; ++t) ths.push_back([&a, t, per] { for (int k = 0; k < per[t]; ++k) perform(a, h[t * 3 + k], t * 2 + k); });
    run_threads(ths, preempt, thorough ? 2 : 1);
    V final = a.data;
    hasher g; g.u(sizeof(V) * 4 + std::is_signed_v<V> * 2 + std::is_integral_v<V>); g.u(nt);
    for (int t = 0; t < nt; ++t) for (int k = 0; k < per[t]; ++k) { auto& c = h[t * 3 + k]; g.u(c.o); g.b(&c.r, sizeof(V)); g.u(c.ok); trace("thread %d: %s took part at [%llu, %llu]%s", t, names[c.o], c.t0, c.t1, c.o == CAS_HIT || c.o == CAS_MISS ? c.ok ? " succeeded" : " failed" : ""); }
    g.b(&final, sizeof(V)); state(g); outcome(g);
    int at[4] = {};
    if (!linear<V>(h, per, nt, at, init, final, total))
    {
        char b[800]; int n = 0;
        for (int t = 0; t < nt; ++t) for (int k = 0; k < per[t]; ++k) { auto& c = h[t * 3 + k]; u64 r = 0; memcpy(&r, &c.r, sizeof(V)); n += snprintf(b + n, sizeof b - n, " thread %d %s -> %llx;", t, names[c.o], r); }
        u64 f = 0; memcpy(&f, &final, sizeof(V));
        fail("the results have no sequential order:%s final %llx", b, f);
    }
}
static void shape(void (*const* ps)(int, int const*, int, int, int), int n, int a)
{
    static int const s22[] = { 2, 2 }, s111[] = { 1, 1, 1 };
    int k = choose(n);
    if (choose(2)) ps[k](2, s22, a, 1, -1); else ps[k](3, s111, a, 3, -1);
}
MC_DFS(integers) { static void (*const p[])(int, int const*, int, int, int) = { program<int>, program<unsigned char> }; shape(p, 2, NOPS); }
MC_DFS(floats) { static void (*const p[])(int, int const*, int, int, int) = { program<float>, program<double>, program<int*> }; shape(p, thorough ? 3 : 1, NOPS); }
MC_DFS(doubles_and_pointers)
{
    static void (*const p[])(int, int const*, int, int, int) = { program<double>, program<int*> };
    static int const s21[] = { 2, 1 };
    p[choose(2)](2, s21, NOPS, 3, -1);
}
MC_DFS(other_types)
{
    static void (*const p[])(int, int const*, int, int, int) = { program<signed char>, program<short>, program<unsigned>, program<long long>, program<unsigned long>, program<unsigned short> };
    static int const s21[] = { 2, 1 };
    p[choose(6)](2, s21, NOPS, 3, -1);
}
MC_DFS_THOROUGH(three_each)
{
    static void (*const p[])(int, int const*, int, int, int) = { program<int>, program<float>, program<double>, program<unsigned char> };
    static int const s33[] = { 3, 3 }; int k = choose(4);
    p[k](2, s33, k % 2 ? 7 : 6, 1, -1);
}
MC_DFS_THOROUGH(three_threads)
{
    static void (*const p[])(int, int const*, int, int, int) = { program<int>, program<float> };
    static int const s[] = { 2, 2, 1 };
    p[choose(2)](3, s, 6, 1, 3);
}
// a floating add must finish although another thread keeps interfering
MC_DFS(interference)
{
    ce::atomic<float> a{ 1.0f }; static float got; int n = 1 + choose(thorough ? 5 : 4);
    run_threads({ [&] { got = ce::atomic_fetch_add(a, 0.5f); }, [&a, n] { for (int i = 0; i < n; ++i) ce::atomic_fetch_sub(a, 2.0f); } }, -1, 3);
    step();
    MC_CHECK(a.data == 1.5f - 2.0f * float(n), "updates were lost: final %g after %d subtractions", double(a.data), n);
    float k = (1.0f - got) / 2.0f;
    MC_CHECK(k == float(int(k)) && k >= 0 && k <= float(n), "fetch_add returned %g, which the atomic never held", double(got));
    hasher h; h.u(n); h.b(&got, 4); state(h); outcome(h);
}
// every value and operand of 8 bits, one thread
template<class V> static void sequential(int x, int y)
{
    for (int o = 0; o < NOPS; ++o)
    {
        V init = V(x); ce::atomic<V> a{ init }; call<V> c{}; c.o = o; c.a = V(y); c.e = o == CAS_HIT ? init : V(y + 1);
        V e = c.e;
        switch (o)
        {
        case LOAD: c.r = ce::atomic_load(a); break;
        case STORE: ce::atomic_store(a, c.a); break;
        case XCHG: c.r = ce::atomic_exchange(a, c.a); break;
        case CAS_HIT: case CAS_MISS: c.ok = ce::atomic_compare_exchange(a, e, c.a); c.r = e; break;
        case ADD: c.r = ce::atomic_fetch_add(a, c.a); break;
        case SUB: c.r = ce::atomic_fetch_sub(a, c.a); break;
        case XOR: c.r = ce::atomic_fetch_xor(a, c.a); break;
        case AND: c.r = ce::atomic_fetch_and(a, c.a); break;
        default: c.r = ce::atomic_fetch_or(a, c.a);
        }
        V s = init; bool fine;
        if (o == ADD) fine = same(c.r, s), s = dom<V>::plus(s, c.a); else if (o == SUB) fine = same(c.r, s), s = dom<V>::minus(s, c.a); else fine = meaning(s, c, 0);
        MC_CHECK(fine && same(s, a.data) && same(ce::atomic_load(a), s), "%s on %d with %d gives %d and leaves %d", names[o], x, y, int(c.r), int(a.data));
        step();
    }
}
MC_SWEEP(bytes, 65536, 65536, 256)
{
    for (u64 i = lo; i < hi; ++i) { at(i); sequential<unsigned char>(int(i & 255), int(i >> 8)); sequential<signed char>(int((signed char)i), int((signed char)(i >> 8))); sequential<int>(INT_MAX - 128 + int(i & 255) / 2, int(i >> 8)); sequential<short>(int(short(i)), 77); nontrivial(); }
}
