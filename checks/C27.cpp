//@ level: exploration
//@ technique: exhaustive enumeration of every configuration of point, direction and squared radius in a complete box, and of all combinations of boundary coordinates with the exact decision thresholds, of the real predicates against 128 bit arithmetic
//@ note: Within the box every squared radius from below zero to beyond the largest distance is tried; at the boundaries the threshold itself, its neighbours and the ends of the range.
//@ cxx: -O2
//@ config plain:
//@ config ubsan: -O1 -fsanitize=undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: the direction is not zero and at least one predicate is true and one false
//@ bounds: all points and directions of [-6,6]^4 ([-9,9]^4) with every rr; all 4-tuples of 30 boundary coordinates over the whole 32 bit range whose squares stay below 2^63, with every threshold and neighbour and 10 fixed rr; ball_hits_* at 9 positions over the whole 32 bit range
//@ assume: squared lengths of the point, the direction and their difference are below 2^63; differences of the points given to ball_hits_* fit 32 bits
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <algorithm>
using namespace mc;
using i64 = long long; using i128 = __int128;

// smallest rr for which the answer is true (squared distance, exact), or none
static bool const never = false;
static i128 above(i128 num, i128 den) { return num / den + 1; }       // smallest integer > num/den for num >= 0
struct thr { bool reachable; i128 rr; };
static thr point_of(i64 px, i64 py) { return { true, i128(px) * px + i128(py) * py + 1 }; }
static thr line_of(i64 px, i64 py, i64 dx, i64 dy) { i128 dd = i128(dx) * dx + i128(dy) * dy, c = i128(px) * dy - i128(py) * dx; if (dd == 0) return point_of(px, py); return { true, above(c * c, dd) }; }
static thr edge_of(i64 px, i64 py, i64 dx, i64 dy) { i128 dd = i128(dx) * dx + i128(dy) * dy, dp = i128(px) * dx + i128(py) * dy; if (dp < 0 || dp > dd) return { never, 0 }; return line_of(px, py, dx, dy); }
static thr ray_of(i64 px, i64 py, i64 dx, i64 dy) { i128 dp = i128(px) * dx + i128(py) * dy; if (dp < 0) return point_of(px, py); return line_of(px, py, dx, dy); }
static thr segment_of(i64 px, i64 py, i64 dx, i64 dy)
{
    i128 dd = i128(dx) * dx + i128(dy) * dy, dp = i128(px) * dx + i128(py) * dy;
    if (dp < 0) return point_of(px, py);
    if (dp > dd) return point_of(px - dx, py - dy);
    return line_of(px, py, dx, dy);
}
static void one(char const* what, bool got, thr t, int px, int py, i64 rr, int dx, int dy)
{
    bool want = t.reachable && rr >= t.rr;
    MC_CHECK(got == want, "%s of the point (%d,%d), rr %lld and direction (%d,%d) is %d; the smallest rr in range is %lld%s", what, px, py, rr, dx, dy, got, i64(t.rr), t.reachable ? "" : " (never)");
}
struct thrs { thr p, l, e, r, s; };
static thrs all(int px, int py, int dx, int dy) { return { point_of(px, py), line_of(px, py, dx, dy), edge_of(px, py, dx, dy), ray_of(px, py, dx, dy), segment_of(px, py, dx, dy) }; }
static void five(thrs const& t, int px, int py, i64 rr, int dx, int dy)
{
    one("in_range_rr", ce::math::in_range_rr(px, py, rr), t.p, px, py, rr, dx, dy);
    one("in_range_rr_line", ce::math::in_range_rr_line(px, py, rr, dx, dy), t.l, px, py, rr, dx, dy);
    one("in_range_rr_edge", ce::math::in_range_rr_edge(px, py, rr, dx, dy), t.e, px, py, rr, dx, dy);
    one("in_range_rr_ray", ce::math::in_range_rr_ray(px, py, rr, dx, dy), t.r, px, py, rr, dx, dy);
    one("in_range_rr_segment", ce::math::in_range_rr_segment(px, py, rr, dx, dy), t.s, px, py, rr, dx, dy);
}
static ce::vec2<int> const origins[] = { { 0, 0 }, { 5, -3 }, { 1 << 30, -(1 << 30) }, { -(1 << 30), 1 << 30 }, { 0x7fffffff, 0x7fffffff }, { -0x7fffffff - 1, -0x7fffffff - 1 }, { 0x7fffffff, -0x7fffffff - 1 }, { -0x40000001, 0x40000001 }, { 123456789, -987654321 } };
static void balls(thrs const& t, int px, int py, i64 rr, int dx, int dy)
{
    for (auto& o : origins)
    {
        i64 ax = o.x, ay = o.y;
        auto fits = [](i64 v) { return v >= -0x80000000ll && v <= 0x7fffffff; };
        if (!fits(ax + px) || !fits(ay + py) || !fits(ax + dx) || !fits(ay + dy)) continue;
        ce::vec2<int> a{ o.x, o.y }, b{ int(ax + dx), int(ay + dy) }, p{ int(ax + px), int(ay + py) };
        one("ball_hits_edge", ce::math::ball_hits_edge(p, rr, a, b), t.e, px, py, rr, dx, dy);
        one("ball_hits_ray", ce::math::ball_hits_ray(p, rr, a, b), t.r, px, py, rr, dx, dy);
        step(2);
    }
}
MC_SWEEP(box, 13 * 13 * 13 * 13, 19 * 19 * 19 * 19, 128)
{
    int g = thorough ? 9 : 6, w = 2 * g + 1;
#ifdef SMALL
    if (thorough) g = 9;
#endif
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int px = int(i % w) - g, py = int(i / w % w) - g, dx = int(i / w / w % w) - g, dy = int(i / w / w / w) - g;
        auto t = all(px, py, dx, dy);
        for (i64 rr = -3; rr <= 8 * g * g + 4; ++rr) { five(t, px, py, rr, dx, dy); step(5); }
        for (i128 rr : { t.p.rr - 1, t.p.rr, t.l.rr - 1, t.l.rr, t.s.rr - 1, t.s.rr }) balls(t, px, py, i64(rr), dx, dy);
        if (dx || dy) nontrivial();
        if (want_sample()) sample("point (%d,%d) direction (%d,%d): line from rr %lld, segment from %lld, edge %s", px, py, dx, dy, i64(t.l.rr), i64(t.s.rr), t.e.reachable ? "possible" : "never");
    }
}
static int const V[] = { 0, 1, -1, 2, -3, 255, 46340, 46341, -46341, 65536, -65537, 1000003, (1 << 24) + 1, (1 << 29) - 1, -(1 << 29), (1 << 30) - 2, (1 << 30) - 1, 1 << 30, -(1 << 30), -(1 << 30) + 1, 715827883, -1000000007,
    1200000000, 1500000000, -1500000000, 1600000000, -1700000001, 0x7fffffff, -0x7fffffff - 1, (1 << 30) + 1 };
static int const NV = 30;
// every square below 2^63, so nothing the predicates need leaves 64 bits
static bool fits(i64 px, i64 py, i64 dx, i64 dy)
{
    auto sq = [](i128 x, i128 y) { return x * x + y * y < i128(1) << 63; };
    return sq(px, py) && sq(dx, dy) && sq(px - dx, py - dy);
}
MC_SWEEP(boundaries, 30 * 30 * 30 * 30, 30 * 30 * 30 * 30, 128)
{
#ifdef SMALL
    u64 stride = thorough ? 1 : 7;
#else
    u64 stride = 1;
#endif
    for (u64 i = lo; i < hi; i += stride)
    {
        at(i); int px = V[i % NV], py = V[i / NV % NV], dx = V[i / NV / NV % NV], dy = V[i / NV / NV / NV];
        if (!fits(px, py, dx, dy)) continue;
        auto t = all(px, py, dx, dy);
        i64 const top = i64(~0ull >> 1);
        i128 rs[40]; int n = 0;
        for (i128 c : { t.p.rr, t.l.rr, t.r.rr, t.s.rr }) for (i64 d = -2; d <= 1; ++d) rs[n++] = c + d;
        for (i64 c : { i64(-1), i64(0), i64(1), i64(1) << 31, i64(1) << 60, i64(1) << 61, top, (i64(1) << 32) + 1, i64(1) << 62, top - 1 }) rs[n++] = c;
        std::sort(rs, rs + n); n = int(std::unique(rs, rs + n) - rs);
        for (int k = 0; k < n; ++k) if (rs[k] <= top) { five(t, px, py, i64(rs[k]), dx, dy); balls(t, px, py, i64(rs[k]), dx, dy); step(5); }
        if (dx || dy) nontrivial();
    }
}
// long directions with points beside them: the foot is near the ends, the cross product tiny or huge
MC_SWEEP(near_lines, 30 * 30 * 64, 30 * 30 * 2048, 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); i64 dx = V[i % NV], dy = V[i / NV % NV]; u64 k = i / (NV * NV);
        for (int e = 0; e < 3; ++e) for (int ox = -2; ox <= 2; ++ox) for (int oy = -2; oy <= 2; ++oy)
        {
            i64 f = e == 0 ? 0 : e == 1 ? i64(1) : i64(k % 7);
            i64 px = (e == 2 ? dx / 7 * f : dx * f) + ox * i64(1 + k * k), py = (e == 2 ? dy / 7 * f : dy * f) + oy * i64(1 + k * 3);
            if (px != int(px) || py != int(py) || !fits(px, py, dx, dy)) continue;
            auto t = all(int(px), int(py), int(dx), int(dy));
            for (i128 rr : { t.p.rr - 1, t.p.rr, t.l.rr - 1, t.l.rr, t.s.rr - 1, t.s.rr }) if (rr < i128(1) << 63) { five(t, int(px), int(py), i64(rr), int(dx), int(dy)); step(5); }
        }
        nontrivial();
    }
}
