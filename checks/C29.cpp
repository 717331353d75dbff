//@ level: exploration
//@ technique: exhaustive enumeration of all values up to 2^32 (2^35) and of every perfect square and half-way boundary up to the largest root, of the real functions against exact integer arithmetic
//@ note: The rounding can only change at squares of half integers, which are all enumerated (thorough) up to the largest root; hypot also over a complete box and all pairs of boundary coordinates.
//@ cxx: -O2
//@ config plain:
//@ config o0: -O0 -DSMALL
//@ rule: the value is not a perfect square
//@ bounds: isqrt: all v < 2^32 (2^35), v = k*k + {-1,0,1,k-1,k,k+1,k+2} for 2^27 (all 2^31) k; hypot: all 0 <= x, y < 6000 (20000) with every sign and order at the border, all pairs of 62 boundary coordinates, pairs around every length boundary for 2^20 (2^26) spread x
//@ assume: a root within 2^-20 of a half integer (only possible from 2^36 on) may be rounded either way, and the result has to fit after that
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace mc;
using i64 = long long; using i128 = __int128;

static i64 const MAXV = i64(0x7fffffff) * 0x7fffffff + 0x7fffffff - 4096;     // the roots from here on may round to 2^31
// |r - sqrt v| <= 1/2 (+ 2^-20 for large v)
static bool nearest(i128 r, i128 v)
{
    if (r < 0) return false;
    i128 s = v >= i128(1) << 36 ? 2 : 0, one = i128(1) << 20, lo = (2 * r - 1) * one - s, hi = (2 * r + 1) * one + s, w = 4 * v * one * one;
    return (lo <= 0 || lo * lo <= w) && w <= hi * hi;
}
static void root(i64 v) { int r = ce::math::isqrt(v); MC_CHECK(nearest(r, v), "isqrt(%lld) is %d", v, r); }
static void length(int x, int y)
{
    i64 v = i64(x) * x + i64(y) * y; if (v > MAXV) return;
    int r = ce::math::hypot(x, y);
    MC_CHECK(nearest(r, v), "hypot(%d, %d) is %d", x, y, r);
}
static void lengths(int x, int y)
{
    length(x, y); int r = ce::math::hypot(x, y);
    if (i64(x) * x + i64(y) * y > MAXV) return;
    auto neg = [](int a) { return int(0u - unsigned(a)); };
    int q[7] = { ce::math::hypot(y, x), ce::math::hypot(neg(x), y), ce::math::hypot(x, neg(y)), ce::math::hypot(neg(x), neg(y)), ce::math::hypot(neg(y), x), ce::math::hypot(y, neg(x)), ce::math::hypot(neg(y), neg(x)) };
    for (int k : q) MC_CHECK(k == r, "hypot of (%d, %d) is %d, with other signs or order %d", x, y, r, k);
}
#ifdef SMALL
static u64 const stride = 1021;
#else
static u64 const stride = 1;
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { u64 k = 0; for (u64 i = lo; i < hi; i += stride) { if ((k++ & 1023) == 0 || stride > 1) at(i); f(i); } nontrivial(k); step(k); }
static inline u64 isqrt_ref(u64 v) { u64 r = u64(__builtin_sqrt(double(v))); while (r * r > v) --r; while ((r + 1) * (r + 1) <= v) ++r; return r; }
MC_SWEEP(values, u64(1) << 32, u64(1) << 35, 1 << 22)
{
    // the expected result is carried along, its boundaries are exact: it grows when v passes r*r + r
    u64 r = 0; bool fresh = true;
    each(lo, hi, [&](u64 v)
    {
        if (fresh || stride > 1) { r = isqrt_ref(v); if (v > r * r + r) ++r; fresh = false; }
        else if (v > r * r + r) ++r;
        int got = ce::math::isqrt(i64(v));
        MC_CHECK(u64(got) == r, "isqrt(%llu) is %d, the nearest integer to the root is %llu", v, got, r);
    });
}
MC_SWEEP(boundaries, u64(1) << 27, u64(1) << 31, 1 << 18)
{
    each(lo, hi, [](u64 i)
    {
        i64 k = i64(thorough ? i : i * 16 + (i >> 11) % 16);
        if (k == 0) return;
        for (i64 v : { k * k - 1, k * k, k * k + 1, k * k + k - 1, k * k + k, k * k + k + 1, k * k + k + 2 }) if (v <= MAXV) root(v);
    });
}
MC_SWEEP(top, 1 << 16, 1 << 24, 1 << 12) { each(lo, hi, [](u64 i) { root(MAXV - i64(i)); root(i64(i)); root((i64(1) << 62) - 1 - i64(i) <= MAXV ? (i64(1) << 62) - 1 - i64(i) : 0); for (int b = 32; b < 62; ++b) root((i64(1) << b) + i64(i)), root((i64(1) << b) - i64(i)); }); }
MC_SWEEP(hypot_box, 6000, 20000, 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int n = thorough ? 20000 : 6000;
#ifdef SMALL
        if (i % 97) continue;
#endif
        for (int y = 0; y < n; ++y) length(int(i), y);
        for (int y = 0; y < 64; ++y) lengths(int(i), y), lengths(int(i), int(i) - y + 32), lengths(int(i), n - y);
        nontrivial(); step(u64(n));
    }
}
static int edge(u64 i) { int p = int(i / 2); int v = p < 31 ? int((1u << p) + (i % 2 ? 0u : 0xffffffffu)) : i % 2 ? 0x7fffffff : -0x7fffffff - 1; return v; }
MC_SWEEP(hypot_edges, 64 * 64 * 5 * 5, 64 * 64 * 5 * 5, 64)
{
    for (u64 i = lo; i < hi; ++i) { at(i); u64 r = i / 4096; int a = int(unsigned(edge(i % 64)) + unsigned(r % 5) - 2), b = int(unsigned(edge(i / 64 % 64)) + unsigned(r / 5) - 2); auto ok = [](int v) { return v >= -0x7fffffff; }; if (ok(a) && ok(b)) lengths(a, b); nontrivial(); step(8); }
}
// for a fixed x the lengths just around every half: y near sqrt((k+1/2)^2 - x^2)
MC_SWEEP(hypot_boundaries, u64(1) << 20, u64(1) << 26, 1 << 12)
{
    each(lo, hi, [](u64 i)
    {
        i64 x = i64(i * 2654435761u % 2147483647u), k = x + i64(i * 40503u % 1048573u) + 1; if (k > 0x7fffffff) k = 0x7fffffff;
        i128 t = i128(k) * k + k - i128(x) * x; if (t < 0) return;
        i64 y = i64(isqrt_ref(u64(t)));
        for (i64 d = -1; d <= 2; ++d) if (y + d >= 0 && y + d <= 0x7fffffff) length(int(x), int(y + d)), length(int(-(y + d)), int(x));
    });
}
