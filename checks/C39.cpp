//@ level: exploration
//@ technique: exhaustive enumeration of every quadruple of points of a grid (at several scales, shears and offsets up to the ends of the coordinate range) and of all nearly parallel pairs of lines of a family on the real intersect, judged by exact 128 bit rational arithmetic; all combinations of boundary factors for muldiv
//@ note: every pair of directions of the grid occurs, so every parallel, collinear, coincident and degenerate case does; the sheared grids turn the small cross products into nearly parallel lines of any length.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: the lines are not parallel
//@ bounds: all quadruples of a 5x5 (7x7) grid in 12 placements; all quadruples of 45 boundary positions with coordinates up to 2^28; 2^10 (2^14) by 64 nearly parallel pairs; muldiv: all 40x40x40 boundary combinations of each overload
//@ assume: coordinates of magnitude up to 2^28; the intersection and its offset from the first point fit 32 bits
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
using namespace mc;
using i64 = long long; using i128 = __int128;
using V = ce::vec2<int>;
#ifdef SMALL
static u64 const stride = 47;
#else
static u64 const stride = 1;
#endif
static bool near1(i64 got, i128 num, i64 den)   // |got - num/den| < 1
{
    i128 e = i128(got) * den - num, d = den < 0 ? -den : den; if (e < 0) e = -e; return e < d;
}
static bool fits(i128 num, i64 den) { i128 q = num / den; return q > -(i64(1) << 31) && q < (i64(1) << 31) - 1; }
static u64 check(V p0, V p1, V q0, V q1)
{
    i64 px = i64(p1.x) - p0.x, py = i64(p1.y) - p0.y, qx = i64(q1.x) - q0.x, qy = i64(q1.y) - q0.y, d = px * qy - py * qx, t = (i64(q0.x) - p0.x) * qy - (i64(q0.y) - p0.y) * qx;
    if (d) { i128 x = i128(px) * t, y = i128(py) * t; if (!fits(x, d) || !fits(y, d) || !fits(x + i128(p0.x) * d, d) || !fits(y + i128(p0.y) * d, d)) return 0; }
    V r{ 0x55555555, -0x55555555 };
    bool g = ce::math::intersect(p0, p1, q0, q1, r);
#define LINES "intersect of (%d,%d)-(%d,%d) and (%d,%d)-(%d,%d) "
#define ARGS p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y
    MC_CHECK(g == (d != 0), LINES "returns %d, the cross product of the directions is %lld", ARGS, g, d);
    if (!d) { MC_CHECK(r.x == p0.x && r.y == p0.y, LINES "is refused with the result (%d,%d)", ARGS, r.x, r.y); return 1; }
    MC_CHECK(near1(i64(r.x) - p0.x, i128(px) * t, d) && near1(i64(r.y) - p0.y, i128(py) * t, d), LINES "is (%d,%d), exactly (%.3f,%.3f)", ARGS, r.x, r.y, double(p0.x + (long double)px * t / d), double(p0.y + (long double)py * t / d));
    return 3;
}
static u64 seen, nt;
template<class F> static void each(u64 lo, u64 hi, F f, u64 st = stride)
{
    seen = nt = 0; u64 k = 0;
    for (u64 i = lo; i < hi; ++i) { if (st > 1 && (i * 0x9e3779b97f4a7c15ull >> 32) % st) continue; if ((k++ & 63) == 0 || st > 1) at(i); u64 r = f(i); seen += r != 0; nt += r == 3; }
    step(seen); nontrivial(nt);
}
struct place { int a, b, c, d, x, y; };   // (u, v) -> (a u + b v + x, c u + d v + y)
static int const T = 1 << 28;
static place const places[] = {
    { 1, 0, 0, 1, 0, 0 }, { 1, 0, 0, 1, T - 3, T - 3 }, { 1, 0, 0, 1, -T + 3, T - 3 }, { 1, 0, 0, 1, -T + 3, -T + 3 }, { T / 3, 0, 0, T / 3, 0, 0 }, { 1 << 20, 1, 1, -1, 1000, -77 },
    { T / 3 - 5, 1, T / 3 - 6, 1, 0, 0 }, { 40000000, 40000001, 39999999, 40000000, 0, 0 }, { 1, T / 3 - 2, -1, T / 3 - 2, 3, 4 }, { 7, 3, 2, 9, 1 << 27, -(1 << 27) }, { 46341, 0, 0, 46341, 1, 1 }, { 65536, 1, -1, 32768, -5, 11 } };
MC_SWEEP(grid, u64(12) * 390625, u64(12) * 5764801, 1 << 12)
{
    each(lo, hi, [](u64 i)
    {
        int n = thorough ? 7 : 5, h = n / 2; u64 tot = u64(n) * n * n * n; tot *= tot; place const& m = places[i / tot]; i %= tot; V v[4];
        for (V& o : v) { int u = int(i % u64(n)) - h, w = int(i / u64(n) % u64(n)) - h; i /= u64(n * n); o = { m.a * u + m.b * w + m.x, m.c * u + m.d * w + m.y }; }
        return check(v[0], v[1], v[2], v[3]);
    });
}
MC_SWEEP(edges, u64(45) * 45 * 45 * 45, u64(45) * 45 * 45 * 45, 1 << 12)
{
    static int const xs[] = { -T, -65537, -1, 0, 1, 3, 32768, T - 1, T }, ys[] = { -T, -1, 0, 46341, T };
    each(lo, hi, [](u64 i) { V v[4]; for (V& o : v) { o = { xs[i % 9], ys[i / 9 % 5] }; i /= 45; } return check(v[0], v[1], v[2], v[3]); });
}
// directions (a, b) and a neighbour with a cross product of +-1 (extended Euclid), crossing near and far
MC_SWEEP(parallel, 1 << 16, 1 << 20, 1 << 8)
{
    each(lo, hi, [](u64 i)
    {
        int k = int(i % 64); i64 j = i64(i / 64), a = 1 + (j * 2654435761u) % (T - 5), b = 1 + (j * 40503u + 12345) % (T - 7);
        i64 x0 = 1, y0 = 0, x1 = 0, y1 = 1, m = a, n = b; while (n) { i64 q = m / n; i64 s = m - q * n; m = n; n = s; s = x0 - q * x1; x0 = x1; x1 = s; s = y0 - q * y1; y0 = y1; y1 = s; }
        // a x0 + b y0 = m; direction (-y0, x0) has cross product m with (a, b)
        i64 c = -y0, d = x0; if (k & 1) { c += a / m * (c > 0 ? -1 : 1); d += b / m * (c > 0 ? -1 : 1); }
        V p0{ k & 2 ? 0 : -k, k & 4 ? 5 : k }, q0{ k & 8 ? k / 2 : -1, k & 16 ? -k : 3 }; int s = k & 32 ? -1 : 1;
        auto in = [](i64 v) { return v >= -T && v <= T; };
        if (!in(p0.x + s * a) || !in(p0.y + s * b) || !in(q0.x + c) || !in(q0.y + d)) return u64(0);
        return check(p0, V{ int(p0.x + s * a), int(p0.y + s * b) }, q0, V{ int(q0.x + c), int(q0.y + d) });
    });
}
static i64 factor(u64 k, int bits) { static i64 const f[] = { 0, 1, 2, 3, 7, 255, 46341, 65535, 65536, 65537, 1 << 28, (1 << 28) - 1, (1 << 30) + 1, 0x7fffffff, i64(1) << 31, (i64(1) << 32) + 1, (i64(1) << 53) - 1, (i64(1) << 59) + 3, i64(1) << 62, 0x7fffffffffffffff }; i64 v = f[k / 2] * (k % 2 ? -1 : 1); return bits == 32 ? i64(int(v)) : v; }
MC_SWEEP(muldivs, 64000, 64000, 1 << 8)
{
    each(lo, hi, [](u64 i)
    {
        u64 some = 0;
        int b = int(factor(i % 40, 32)); i64 n = factor(i / 40 % 40, 64), d = factor(i / 1600, 64); int n32 = int(factor(i / 40 % 40, 32)), d32 = int(factor(i / 1600, 32));
        if (d) { i128 w = i128(b) * n / d, v = i128(-(b >> 1)) * n / d; if (w == int(w) && v == int(v)) { V r = ce::math::muldiv(V{ b, -(b >> 1) }, ce::int64_t(n), ce::int64_t(d)); MC_CHECK(r.x == int(w) && r.y == int(v), "muldiv of (%d,%d) by %lld/%lld is (%d,%d), exactly (%lld,%lld)", b, -(b >> 1), n, d, r.x, r.y, i64(w), i64(v)); some = 3; } }
        if (d32) { i128 w = i128(b) * n32 / d32, v = i128(-(b >> 1)) * n32 / d32; if (w == int(w) && v == int(v)) { V r = ce::math::muldiv(V{ b, -(b >> 1) }, n32, d32); MC_CHECK(r.x == int(w) && r.y == int(v), "muldiv of (%d,%d) by %d/%d is (%d,%d), exactly (%lld,%lld)", b, -(b >> 1), n32, d32, r.x, r.y, i64(w), i64(v)); some = 3; } }
        return some;
    }, 1);
}
