//@ level: exploration
//@ technique: exhaustive enumeration of every polygon of up to n vertices on a grid (every shape: simple, self-touching, self-intersecting, repeated vertices, both orientations, every starting vertex) with every integer point around it, judged by an independent quadrant based winding number (for points on edges, of the point moved infinitely little)
//@ note: All vertex sequences on the grid are enumerated, so all rotations and both orientations of each polygon are; each is also placed at the ends of the coordinate range.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: at least one point has a non-zero winding number
//@ bounds: all sequences of 0 to 4 vertices of a 5x5 grid, of 5 vertices of a 4x4 (5x5) grid, of 6 and 7 (8) vertices of a 3x3 grid, 8 (10) of a 2x3 grid; all points of the grid refined by two and one beyond; sequences of 3 and 4 of 9 boundary positions with coordinates up to 2^30; the grids also shifted to the ends of the 32 bit range
//@ assume: coordinates of polygon and point differ by less than 2^31
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <vector>
#include <memory>
using namespace mc;
using i64 = long long; using i128 = __int128;
using V = ce::vec2<int>;

// winding number by quadrant changes around the point; false when the point is on an edge or vertex
static bool winding(V const& p, V const* v, size_t n, i64& w)
{
    auto quad = [](i64 x, i64 y) { return x > 0 && y >= 0 ? 0 : x <= 0 && y > 0 ? 1 : x < 0 && y <= 0 ? 2 : 3; };
    i64 q = 0;
    for (size_t i = 0; i < n; ++i)
    {
        i64 ax = i64(v[i].x) - p.x, ay = i64(v[i].y) - p.y, bx = i64(v[(i + 1) % n].x) - p.x, by = i64(v[(i + 1) % n].y) - p.y;
        if ((!ax && !ay) || (!bx && !by)) return false;
        i128 c = i128(ax) * by - i128(ay) * bx, d = i128(ax) * bx + i128(ay) * by;
        if (c == 0 && d < 0) return false;
        int k = (quad(bx, by) - quad(ax, ay)) & 3;
        if (k == 3) k = -1;
        if (k == 2) k = c > 0 ? 2 : -2;
        q += k;
    }
    w = q / 4;
    return true;
}
// the same around the point moved by (e, e^2), e infinitely small: never on an edge; the limit decides the points that are
static i64 moved(V const& p, V const* v, size_t n)
{
    auto quad = [](i64 x, i64 y) { return x > 0 ? (y > 0 ? 0 : 3) : y > 0 ? 1 : 2; };
    i64 q = 0;
    for (size_t i = 0; i < n; ++i)
    {
        i64 ax = i64(v[i].x) - p.x, ay = i64(v[i].y) - p.y, bx = i64(v[(i + 1) % n].x) - p.x, by = i64(v[(i + 1) % n].y) - p.y;
        i128 c = i128(ax) * by - i128(ay) * bx;
        if (c == 0) c = ay - by;
        if (c == 0) c = bx - ax;
        int k = (quad(bx, by) - quad(ax, ay)) & 3;
        q += k == 3 ? -1 : k == 2 ? (c > 0 ? 2 : -2) : k;
    }
    return q / 4;
}
static u64 check(V const& p, V const* v, size_t n)
{
    i64 w, m = moved(p, v, n); bool off = winding(p, v, n, w);
    if (!off) w = m; else if (w != m) fail("harness: the two references disagree");
    size_t got = ce::math::in_polygon(p, n, v);
    if (got != size_t(w))
    {
        char b[400]; int k = 0; for (size_t i = 0; i < n && k < 300; ++i) k += snprintf(b + k, sizeof b - k, " (%d,%d)", v[i].x, v[i].y); b[k] = 0;
        fail("in_polygon of the point (%d,%d) in%s is %lld, the winding number is %lld%s", p.x, p.y, b, i64(got), w, off ? "" : " (on an edge: of the point moved right, then up, infinitely little)");
    }
    return w != 0 ? 3 : 1;
}
static V const shifts[] = { { 0, 0 }, { 0x7fffffe0, -0x7fffffff - 1 }, { -0x7fffffff, 0x7fffffe0 }, { -5, -4 }, { 0x3ffffffc, -0x40000004 } };
// the i-th sequence of n vertices of a w x h grid, spaced by two
static void sequence(u64 i, size_t n, int w, int h, u64 nshift)
{
    std::unique_ptr<V[]> v(new V[n]); V s = shifts[nshift];
    for (size_t k = 0; k < n; ++k) { int c = int(i % u64(w * h)); i /= u64(w * h); v[k] = { s.x + 1 + 2 * (c % w), s.y + 1 + 2 * (c / w) }; }
    bool hit = false;
    for (int x = 0; x <= 2 * w; ++x) for (int y = 0; y <= 2 * h; ++y) { u64 r = check({ s.x + x, s.y + y }, v.get(), n); hit |= r == 3; step(); }
    if (hit) nontrivial();
    if (hit && want_sample()) sample("%zu vertices on a %dx%d grid", n, w, h);
}
static u64 power(u64 b, size_t e) { u64 r = 1; while (e--) r *= b; return r; }
static void sequences(u64 lo, u64 hi, size_t n, int w, int h)
{
#ifdef SMALL
    u64 stride = 61;
#else
    u64 stride = 1;
#endif
    u64 count = power(u64(w * h), n);
    for (u64 i = lo; i < hi; i += stride) { if (i % 16 == 0 || stride > 1) at(i); sequence(i % count, n, w, h, i / count % 5); }
}
#define SEQ(NAME, N, W, H, Q, T) MC_SWEEP(NAME, Q, T, 1 << 10) { sequences(lo, hi, N, W, H); }
SEQ(none, 0, 5, 5, 1, 5)
SEQ(one, 1, 5, 5, 25 * 5, 25 * 5)
SEQ(two, 2, 5, 5, 625 * 5, 625 * 5)
SEQ(three, 3, 5, 5, 15625 * 5, 15625 * 5)
SEQ(four, 4, 5, 5, 390625 * 2, 390625 * 5)
SEQ(five, 5, 4, 4, 1048576, 1048576 * 5)
SEQ(five_wide, 5, 5, 5, 0, 9765625)
SEQ(six, 6, 3, 3, 531441, 531441 * 5)
SEQ(seven, 7, 3, 3, 4782969 / 3, 4782969 * 2)
SEQ(eight, 8, 3, 3, 0, 43046721)
SEQ(eight_low, 8, 3, 2, 1679616 / 2, 1679616 * 2)
SEQ(ten_low, 10, 3, 2, 0, 60466176)
SEQ(six_tall, 6, 2, 4, 262144, 262144 * 5)
// large coordinates
static int const big[] = { -(1 << 30) + 1, -(1 << 30) + 2, -65537, -1, 0, 1, 46341, (1 << 30) - 2, (1 << 30) - 1 };
MC_SWEEP(large, 81 * 81 * 81, u64(81) * 81 * 81 * 9, 1 << 8)
{
#ifdef SMALL
    u64 stride = 211;
#else
    u64 stride = 1;
#endif
    for (u64 i = lo; i < hi; i += stride)
    {
        if (i % 16 == 0 || stride > 1) at(i);
        u64 r = i; V v[4]; size_t n = 3;
        for (int k = 0; k < 3; ++k) { v[k] = { big[r % 9], big[r / 9 % 9] }; r /= 81; }
        if (r) v[3] = { big[r % 9], big[(r * 7 + i) % 9] }, n = 4;
        bool hit = false;
        for (int x : big) for (int y : big) for (int d = -1; d <= 1; ++d) { if ((x == big[0] || x == big[8]) && d) continue; hit |= check({ x + d, y }, v, n) == 3; step(); }
        if (hit) nontrivial();
    }
}
// long polygons: combs, spirals and multiple turns with a known shape
MC_SWEEP(long_shapes, 64 * 4, 1024 * 4, 4)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); size_t m = 1 + i / 4; std::vector<V> v; int kind = int(i % 4), s = int(m);
        if (kind == 0) { for (int k = 0; k < s; ++k) v.push_back({ 2 * k, 0 }), v.push_back({ 2 * k, 5 }), v.push_back({ 2 * k + 1, 5 }), v.push_back({ 2 * k + 1, 1 }); v.push_back({ 2 * s, 1 }); v.push_back({ 2 * s, -1 }); v.push_back({ -1, -1 }); }
        else if (kind == 1) for (int k = 0; k < s; ++k) v.push_back({ -k - 1, -k - 1 }), v.push_back({ k + 2, -k - 1 }), v.push_back({ k + 2, k + 2 }), v.push_back({ -k - 2, k + 2 });
        else if (kind == 2) for (int k = 0; k < s; ++k) v.push_back({ 4, 0 }), v.push_back({ 0, 4 }), v.push_back({ -4, 0 }), v.push_back({ 0, -4 });
        else for (int k = 0; k < s; ++k) v.push_back({ 0, -4 }), v.push_back({ -4, 0 }), v.push_back({ 0, 4 }), v.push_back({ 4, 0 }), v.push_back({ 4, 0 });
        bool hit = false;
        for (int x = -8; x <= 20; ++x) for (int y = -8; y <= 10; ++y) { hit |= check({ x, y }, v.data(), v.size()) == 3; step(); }
        if (hit) nontrivial();
    }
}
// more than 2^16 vertices: a comb, many turns, and one outline cut into unit steps
MC_SWEEP(huge_shapes, 4 * 3, 4 * 3, 1)
{
    static int const ns[] = { 65536, 65537, 131073 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); std::vector<V> v; int kind = int(i % 4), n = ns[i / 4];
        if (kind == 0) { int m = n / 4; for (int k = 0; k < m; ++k) v.push_back({ 2 * k, 0 }), v.push_back({ 2 * k, 5 }), v.push_back({ 2 * k + 1, 5 }), v.push_back({ 2 * k + 1, 1 }); while (int(v.size()) < n) v.push_back({ 2 * m, -1 }); v.back() = { -1, -1 }; }
        else if (kind == 1) for (int k = 0; k < n; ++k) v.push_back(k % 4 == 0 ? V{ 4, 0 } : k % 4 == 1 ? V{ 0, 4 } : k % 4 == 2 ? V{ -4, 0 } : V{ 0, -4 });
        else if (kind == 2) for (int k = 0; k < n; ++k) { int q = n / 4; v.push_back(k < q ? V{ k, 0 } : k < 2 * q ? V{ q, k - q } : k < 3 * q ? V{ 3 * q - k, q } : V{ 0, k < 4 * q ? 4 * q - k : 1 }); }
        else for (int k = 0; k < n; ++k) v.push_back(k + 40 < n ? V{ 1000, 1000 + k } : V{ k % 7 - 3, k % 5 - 2 });
        bool hit = false;
        for (int x : { -3, -1, 0, 1, 2, 5, 100, 16000, 16383, 16384, 20000 }) for (int y : { -3, -1, 0, 1, 3, 5, 100, 2000, 16384 }) { hit |= check({ x, y }, v.data(), v.size()) == 3; step(); }
        if (hit) nontrivial();
    }
}
