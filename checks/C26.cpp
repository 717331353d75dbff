//@ level: model_checking
//@ technique: explicit-state exploration of the flip graph (every triangulation of a point set is a state, edge flips are the transitions): in each of them every integer point is classified with the real inside test; exhaustive enumeration of vector pairs for the tie-breaking rules
//@ note: All triangulations of each point set are visited (the flip graph of a planar point set is connected), at several offsets up to the ends of the 32 bit range; pairs of vectors are complete for a box and for all combinations of boundary values.
//@ cxx: -O2
//@ bounds: all triangulations of 7 (9) point sets of 6 to 12 (14) points, every integer point strictly inside; all vector pairs of [-40,40]^4 ([-80,80]^4) and all 4-tuples of 34 boundary values, as 32 and 64 bit vectors
//@ assume: triangles are turned so that a strictly interior point passes the three sided test documented in math.h
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <vector>
#include <algorithm>
#include <array>
#include <map>
using namespace mc;
using i64 = long long; using i128 = __int128;
using V = ce::vec2<int>;

// ---- pairs
template<class T> static bool ins(T ax, T ay, T bx, T by) { return ce::math::inside(ce::vec2<T>{ ax, ay }, ce::vec2<T>{ bx, by }); }
template<class T> static void pair(T ax, T ay, T bx, T by)
{
    i128 c = i128(ax) * by - i128(ay) * bx;
    bool p = ins<T>(ax, ay, bx, by), q = ins<T>(bx, by, ax, ay);
    bool same = ax == bx && ay == by;
    if (c != 0) MC_CHECK(p == (c < 0) && q == (c > 0), "inside((%lld,%lld),(%lld,%lld)) is %d and the other way round %d, the cross product is %s", i64(ax), i64(ay), i64(bx), i64(by), p, q, c < 0 ? "negative" : "positive");
    else if (same) MC_CHECK(!p && !q, "inside of the equal vectors (%lld,%lld) is true", i64(ax), i64(ay));
    else MC_CHECK(p != q, "inside of the collinear vectors (%lld,%lld) and (%lld,%lld) is %d both ways", i64(ax), i64(ay), i64(bx), i64(by), p);
}
static int const G = 40, GT = 80;
MC_SWEEP(pairs_grid, 81 * 81, 161 * 161, 8)
{
    int g = thorough ? GT : G, w = 2 * g + 1;
    for (u64 i = lo; i < hi; ++i) { at(i); int ax = int(i % w) - g, ay = int(i / w) - g; for (int bx = -g; bx <= g; ++bx) for (int by = -g; by <= g; ++by) pair<int>(ax, ay, bx, by), pair<ce::int64_t>(ax, ay, bx, by), step(2); nontrivial(); }
}
static int const edge_values[] = { 0, 1, -1, 2, -2, 3, 255, 256, 32767, -32768, 32768, 46340, 46341, -46341, 65535, 65536, -65537, 1 << 24, (1 << 24) + 1, 1000003, -1000003, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, -(1 << 30), -(1 << 30) - 1, 0x7fffffff, 0x7ffffffe, -0x7fffffff, -0x7fffffff - 1, 0x55555555, -0x2aaaaaab, 0x3fffffff, 715827883 };
MC_SWEEP(pairs_edges, 34 * 34 * 34, 34 * 34 * 34, 64)
{
    auto& e = edge_values;
    for (u64 i = lo; i < hi; ++i) { at(i); for (int d : e) { pair<int>(e[i % 34], e[i / 34 % 34], e[i / 1156], d), pair<ce::int64_t>(e[i % 34], e[i / 34 % 34], e[i / 1156], d), step(2); } nontrivial(); }
}
// collinear families: multiples and near multiples of one direction, far out
MC_SWEEP(pairs_collinear, 46 * 46 * 20, 2000 * 46, 8)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); i64 dx = i64(i % 46) - 23, dy = i64(i / 46) % 46 - 23; i64 s = 1 + i64(i / 2116) * 46337;
        for (i64 k = -90; k <= 90; ++k) for (i64 m : { k, k + 1, -k, k * 2, i64(46340) * 990 + k, i64(1), i64(-1) })
        {
            i64 a = dx * k * s, b = dy * k * s, c = dx * m, d = dy * m;
            auto fits = [](i64 v) { return v >= -0x7fffffffll - 1 && v <= 0x7fffffff; };
            if (!fits(a) || !fits(b) || !fits(c) || !fits(d)) continue;
            pair<int>(int(a), int(b), int(c), int(d)); if (fits(c + 1)) pair<int>(int(a), int(b), int(c + 1), int(d)); step(2);
        }
        nontrivial();
    }
}
// consistency of a third point: the winner on a shared edge does not depend on which triangle asks
MC_SWEEP(edges, 15 * 15 * 15 * 15, 25 * 25 * 25 * 25, 256)
{
    int w = thorough ? 25 : 15;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int ax = int(i % w), ay = int(i / w % w), bx = int(i / w / w % w), by = int(i / w / w / w);
        if (ax == bx && ay == by) continue;
        // a point on the open edge a-b is on exactly one side of it
        for (int px = 0; px < w; ++px) for (int py = 0; py < w; ++py)
        {
            bool l = ins(ax - px, ay - py, bx - px, by - py), r = ins(bx - px, by - py, ax - px, ay - py);
            MC_CHECK(l != r, "the point (%d,%d) is on %s of the edge (%d,%d) (%d,%d)", px, py, l ? "both sides" : "neither side", ax, ay, bx, by); step();
        }
        nontrivial();
    }
}

// ---- all triangulations of a point set
struct tri { int a, b, c; bool operator<(tri const& o) const { return std::array<int, 3>{ a, b, c } < std::array<int, 3>{ o.a, o.b, o.c }; } };
using pts = std::vector<V>;
static i64 cross(V const& a, V const& b, V const& c) { return i64(b.x - a.x) * (c.y - a.y) - i64(b.y - a.y) * (c.x - a.x); }
static tri norm(pts const& p, int a, int b, int c) { if (cross(p[size_t(a)], p[size_t(b)], p[size_t(c)]) > 0) std::swap(b, c); while (a > b || a > c) { int t = a; a = b; b = c; c = t; } return { a, b, c }; }   // clockwise
static std::vector<tri> first(pts const& p)
{
    // sweep triangulation: points sorted by x then y, each new point sees part of the hull
    std::vector<int> o(p.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = int(i);
    std::sort(o.begin(), o.end(), [&](int i, int j) { auto& a = p[size_t(i)]; auto& b = p[size_t(j)]; return a.x != b.x ? a.x < b.x : a.y < b.y; });
    std::vector<tri> t; std::vector<int> hull;    // counter-clockwise hull
    size_t k = 2; while (cross(p[size_t(o[0])], p[size_t(o[1])], p[size_t(o[k])]) == 0) ++k;
    for (size_t i = 1; i < k; ++i) t.push_back(norm(p, o[i - 1], o[i], o[k]));
    if (cross(p[size_t(o[0])], p[size_t(o[1])], p[size_t(o[k])]) > 0) { for (size_t i = 0; i < k; ++i) hull.push_back(o[i]); hull.push_back(o[k]); }
    else { hull.push_back(o[k]); for (size_t i = k; i-- > 0;) hull.push_back(o[i]); }
    for (size_t i = k + 1; i < o.size(); ++i)
    {
        size_t n = hull.size(); std::vector<bool> vis(n);
        for (size_t j = 0; j < n; ++j) vis[j] = cross(p[size_t(hull[j])], p[size_t(hull[(j + 1) % n])], p[size_t(o[i])]) < 0;
        for (size_t j = 0; j < n; ++j) if (vis[j]) t.push_back(norm(p, hull[j], hull[(j + 1) % n], o[i]));
        std::vector<int> h;
        for (size_t j = 0; j < n; ++j)
        {
            bool before = vis[(j + n - 1) % n], after = vis[j];
            if (before && after) continue;
            h.push_back(hull[j]);
            if (after && !before) h.push_back(o[i]);
        }
        hull = h;
    }
    std::sort(t.begin(), t.end());
    return t;
}
struct edge { int a, b, t0, t1, o0, o1; };
static std::vector<edge> inner(std::vector<tri> const& t)
{
    std::map<std::pair<int, int>, edge> m;
    for (size_t i = 0; i < t.size(); ++i)
    {
        int v[3] = { t[i].a, t[i].b, t[i].c };
        for (int k = 0; k < 3; ++k) { int a = v[k], b = v[(k + 1) % 3], o = v[(k + 2) % 3]; auto key = std::make_pair(std::min(a, b), std::max(a, b)); auto f = m.find(key); if (f == m.end()) m[key] = { key.first, key.second, int(i), -1, o, -1 }; else f->second.t1 = int(i), f->second.o1 = o; }
    }
    std::vector<edge> r; for (auto& e : m) if (e.second.t1 >= 0) r.push_back(e.second);
    return r;
}
static bool flip(pts const& p, std::vector<tri>& t, int k)
{
    auto e = inner(t); if (k >= int(e.size())) return false;
    auto& q = e[size_t(k)];
    auto& A = p[size_t(q.a)]; auto& B = p[size_t(q.b)]; auto& C = p[size_t(q.o0)]; auto& D = p[size_t(q.o1)];
    i64 x = cross(C, D, A), y = cross(C, D, B);
    if (!((x > 0 && y < 0) || (x < 0 && y > 0))) return false;
    t[size_t(q.t0)] = norm(p, q.o0, q.o1, q.a); t[size_t(q.t1)] = norm(p, q.o0, q.o1, q.b);
    std::sort(t.begin(), t.end());
    return true;
}
static bool on_hull(std::vector<tri> const& t, pts const& p, V const& z)
{
    std::map<std::pair<int, int>, int> m;
    for (auto& q : t) { int v[3] = { q.a, q.b, q.c }; for (int k = 0; k < 3; ++k) ++m[{ std::min(v[k], v[(k + 1) % 3]), std::max(v[k], v[(k + 1) % 3]) }]; }
    for (auto& e : m) if (e.second == 1) { auto& a = p[size_t(e.first.first)]; auto& b = p[size_t(e.first.second)]; if (cross(a, b, z) == 0 && std::min(a.x, b.x) <= z.x && z.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= z.y && z.y <= std::max(a.y, b.y)) return true; }
    return false;
}
static u64 triangulation(pts const& base, unsigned char const* hist, int n, bool& ok)
{
    auto t = first(base);
    for (int i = 0; i < n; ++i) { if (!flip(base, t, hist[i])) { ok = false; return 0; } }
    // every integer point, at every offset
    int x0 = 1 << 30, x1 = -x0, y0 = x0, y1 = -x0; for (auto& q : base) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
    static V const offset[] = { { 0, 0 }, { -7, -5 }, { 0x7fffff00, -0x7fffff00 }, { -0x7fffff00, 0x7fffff00 }, { 0x40000000, 0x3fffffff } };
    static pts const* memo = nullptr; static std::vector<V> zs; static std::vector<char> hull;
    if (memo != &base) { memo = &base; zs.clear(); hull.clear(); for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) { V z{ x, y }; zs.push_back(z); hull.push_back(on_hull(t, base, z)); } }
    static std::vector<char> covered;
    if (memo == &base && n == 0) { covered.assign(zs.size(), 0); }
    for (size_t k = 0; k < zs.size(); ++k)
    {
        if (hull[k]) continue;
        bool in = false; for (auto& q : t) { i64 a = cross(base[size_t(q.a)], base[size_t(q.b)], zs[k]), b = cross(base[size_t(q.b)], base[size_t(q.c)], zs[k]), c = cross(base[size_t(q.c)], base[size_t(q.a)], zs[k]); if (a <= 0 && b <= 0 && c <= 0) in = true; }
        for (auto& o : offset)
        {
            int count = 0; V z{ zs[k].x + o.x, zs[k].y + o.y };
            for (auto& q : t)
            {
                V a = V{ base[size_t(q.a)].x + o.x, base[size_t(q.a)].y + o.y } - z, b = V{ base[size_t(q.b)].x + o.x, base[size_t(q.b)].y + o.y } - z, c = V{ base[size_t(q.c)].x + o.x, base[size_t(q.c)].y + o.y } - z;
                count += ce::math::inside(a, b) && ce::math::inside(b, c) && ce::math::inside(c, a);
            }
            step();
            MC_CHECK(count == (in ? 1 : 0), "the point (%d,%d) is inside %d triangles of a triangulation, expected %d", z.x, z.y, count, in ? 1 : 0);
        }
    }
    hasher h; for (auto& q : t) h.u(u64(q.a) << 16 | u64(q.b) << 8 | u64(q.c)); outcome(h);
    if (want_sample()) sample("a triangulation with %zu triangles, %zu integer points", t.size(), zs.size());
    return h;
}
static pts grid(int w, int h, int sx, int sy, int shear) { pts p; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.push_back({ x * sx + y * shear, y * sy }); return p; }
#define SET(NAME, DQ, DT, ...) MC_BFS(NAME, 40, DQ, DT) { static pts const p = __VA_ARGS__; return triangulation(p, hist, n, ok); }
SET(grid_3x2, 20, 20, grid(3, 2, 4, 4, 0))
SET(grid_3x3, 30, 30, grid(3, 3, 4, 4, 0))
SET(grid_3x3_sheared, 30, 30, grid(3, 3, 4, 4, 2))
SET(grid_4x3, 40, 40, grid(4, 3, 3, 3, 0))
SET(star, 40, 40, pts{ { 0, 0 }, { 12, 0 }, { 12, 12 }, { 0, 12 }, { 6, 6 }, { 4, 2 }, { 10, 4 }, { 8, 10 }, { 2, 8 } })
SET(vertical, 40, 40, pts{ { 0, 0 }, { 8, 0 }, { 8, 12 }, { 0, 12 }, { 4, 2 }, { 4, 4 }, { 4, 8 }, { 4, 10 } })
SET(diagonal, 40, 40, pts{ { 0, 0 }, { 10, 0 }, { 10, 10 }, { 0, 10 }, { 2, 2 }, { 4, 4 }, { 6, 6 }, { 8, 8 }, { 8, 2 } })
SET(convex, 40, 40, pts{ { 4, 0 }, { 8, 0 }, { 12, 4 }, { 12, 8 }, { 8, 12 }, { 4, 12 }, { 0, 8 }, { 0, 4 } })
SET(grid_4x4, 0, 40, grid(4, 4, 2, 2, 0))
