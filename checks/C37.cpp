//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over histories of point and constraint insertions, and in every reached mesh every query point of a finer grid located from every hint
//@ note: Every answer is compared with the one face all tests of its edges accept (searched face by face), with exact containment and with the answers for all other hints. Queries on vertices, on edges, off the grid of the mesh, on and beyond the outer boundary, as far away as the coordinates allow.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: histories to depth 6 (8) of points of 3x3 grids, to depth 3 of constraints, extremes to depth 5 (6); about 60..200 queries by every hint of every face and 8 values out of range; 6 (30) large meshes of 300..8192 points
#include "cdtops.h"
using namespace mc;
using namespace cdtops;
static std::vector<P> const* queries;
template<class T> static void look(typename T::M const& m, snap const& s, std::vector<P> const& qs, std::vector<unsigned> const& hints, size_t one)
{
    using G = typename T::G;
    for (P q : qs)
    {
        int n = 0; size_t f = 0;
        auto rel = [&](P v) { return ce::vec2<int32_t>{ v.x - q.x, v.y - q.y }; };
        for (size_t k = 0; k < s.f.size(); ++k)
        {
            auto a = rel(s.f[k].p[0]), b = rel(s.f[k].p[1]), c = rel(s.f[k].p[2]);
            if (ce::math::inside(a, b) && ce::math::inside(b, c) && ce::math::inside(c, a)) ++n, f = k;
        }
        if (G::interior(q)) MC_CHECK(n == 1, "(%d,%d) is inside %d faces", q.x, q.y, n);
        else MC_CHECK(n <= 1, "(%d,%d) is inside %d faces", q.x, q.y, n);
        unsigned first = 0; bool have = false;
        auto ask = [&](unsigned h)
        {
            unsigned r = unsigned(m.locate(ce::vec2<int32_t>{ q.x, q.y }, h)), r2 = h == 0 ? unsigned(m.locate(q.x, q.y, h)) : r;
            MC_CHECK(r == r2, "locate({%d,%d}, %u) is %u, locate(%d, %d, %u) is %u", q.x, q.y, h, r, q.x, q.y, h, r2);
            if (have) { MC_CHECK(r == first, "locate({%d,%d}, %u) is %u, with another hint it is %u", q.x, q.y, h, r, first); return; }
            first = r; have = true;
            MC_CHECK((r != 0) == (n == 1), "locate({%d,%d}, %u) is %u, the point is %s", q.x, q.y, h, r, n ? "inside a face" : "outside");
            if (!r) return;
            MC_CHECK(ce::is_face(r) && r < 4 * (s.f.size() + 6) && r >= 24, "locate({%d,%d}, %u) is %u", q.x, q.y, h, r);
            auto g = m[typename T::M::face_id_t(r)];
            for (int i = 0; i < 3; ++i) MC_CHECK(g.ps[i].x == s.f[f].p[i].x && g.ps[i].y == s.f[f].p[i].y, "locate({%d,%d}, %u) is the face (%d,%d) (%d,%d) (%d,%d), the point is inside (%d,%d) (%d,%d) (%d,%d)", q.x, q.y, h, g.ps[0].x, g.ps[0].y, g.ps[1].x, g.ps[1].y, g.ps[2].x, g.ps[2].y, s.f[f].p[0].x, s.f[f].p[0].y, s.f[f].p[1].x, s.f[f].p[1].y, s.f[f].p[2].x, s.f[f].p[2].y);
            for (int i = 0; i < 3; ++i) MC_CHECK(cross(s.f[f].p[i], s.f[f].p[(i + 1) % 3], q) <= 0, "locate({%d,%d}, %u): the face (%d,%d) (%d,%d) (%d,%d) does not contain the point", q.x, q.y, h, s.f[f].p[0].x, s.f[f].p[0].y, s.f[f].p[1].x, s.f[f].p[1].y, s.f[f].p[2].x, s.f[f].p[2].y);
            outcome(u64(n) * 1000 + r);
        };
        if (one) { for (size_t k = 0; k < hints.size(); k += one) ask(hints[(k + size_t(unsigned(q.x))) % hints.size()]); }
        else for (unsigned h : hints) ask(h);
        step(one ? (hints.size() + one - 1) / one : hints.size());
    }
}
static std::vector<unsigned> all_hints(size_t faces)
{
    std::vector<unsigned> h{ 0, 3, 20, 23, ~0u, ~3u, 1u << 16, unsigned(4 * (faces + 6)), unsigned(4 * (faces + 6) + 40) };
    for (unsigned k = 24; k < 4 * (faces + 6); ++k) h.push_back(k);
    return h;
}
template<class T> static void check(typename T::context& c)
{
    if (!c.fresh && c.after == c.before) return;
    look<T>(c.m, c.after, *queries, all_hints(c.after.f.size()), 0);
    snap s = take(c.m); MC_CHECK(s == c.after, "locate changed the mesh");
}
#ifdef SMALL
#define D(X) ((X) > 2 ? (X) / 2 : 1)
#else
#define D(X) (X)
#endif
template<int Q> static std::vector<P> around(std::vector<P> const& near)
{
    using G = grid<Q>; std::vector<P> r = near; int big = Q == 14 ? 1 << 30 : 2147483647 - (32768 << Q);
    for (int x : { G::lo, G::lo - 1, G::lo + 1, 0, G::hi, G::hi - 1, G::hi + 1 }) for (int y : { G::lo, G::lo - 1, G::lo + 1, 7, G::hi, G::hi - 1, G::hi + 1 }) r.push_back({ x, y });
    for (P p : { P{ big, big }, P{ -big, big }, P{ big, -big }, P{ -big, -big }, P{ big, 3 }, P{ 3, -big }, P{ G::lo / 2, G::lo / 2 }, P{ G::hi / 2, G::lo / 2 }, P{ 5, G::lo / 2 - 1 } }) r.push_back(p);
    return r;
}
// OPS: operations on Q, queries around the points
#define LOC_BFS(NAME, Q, DQ, DT, QS, ...) \
    static cdtops::ops const& ops_##NAME() { static cdtops::ops const l = __VA_ARGS__; return l; } \
    MC_BFS(NAME, int(ops_##NAME().size()), DQ, DT) { static std::vector<P> const qs = around<Q>(QS); queries = &qs; return cdtops::tri<Q, 64>::body(ops_##NAME(), hist, n, ok, check<cdtops::tri<Q, 64>>); }
static std::vector<P> far9(int s) { std::vector<P> r; for (P p : std::vector<P>{ { -30000, -30000 }, { 32766, -32766 }, { -32766, 32766 }, { 32766, 32766 }, { -32766, -2 }, { 2, 32766 }, { 32766, 0 }, { 0, -32766 }, { 100, 98 } }) r.push_back({ p.x * s, p.y * s }); return r; }
static std::vector<P> near9(int s) { std::vector<P> r; for (P p : far9(s)) for (int d : { -1, 0, 1 }) r.push_back({ p.x + d, p.y - d }), r.push_back({ p.x + d, p.y + 1 }); return r; }
LOC_BFS(points_3x3, 1, D(6), D(8), grid_points(7, 7, 2, 2, -6, -6), points(grid_points(3, 3, 4, 4, -4, -4)))
LOC_BFS(points_sheared, 1, D(5), D(7), grid_points(8, 6, 3, 3, -11, -8), points(grid_points(3, 3, 12, 8, -14, -8, 4)))
LOC_BFS(edges_3x3, 1, D(3), D(3), grid_points(9, 9, 1, 1, -4, -4), points(grid_points(3, 3, 4, 4, -4, -4)) + edges(grid_points(3, 3, 4, 4, -4, -4), true))
LOC_BFS(edges_wide, 0, D(3), D(3), grid_points(9, 7, 5, 4, -19, -11), edges(grid_points(3, 3, 14, 10, -16, -8, 4), false))
LOC_BFS(far_0, 0, D(5), D(6), near9(1), points(far9(1)))
LOC_BFS(far_14, 14, D(5), D(6), near9(16384), points(far9(16384)))
LOC_BFS(far_edges, 5, D(3), D(3), near9(32), edges(far9(32), false))
LOC_BFS(line, 2, D(6), D(8), grid_points(11, 5, 4, 4, -12, -9), points(grid_points(6, 1, 8, 0, -16, 0) + std::vector<P>{ { 0, 8 }, { 0, -8 } }))

template<size_t N> static void large(u64 i)
{
    using T = tri<1, N>; static typename T::M m; m.reset(); int k = 1; while (k * k < int(N) - 4) ++k; --k; std::vector<P> qs;
    u64 tot = u64(k) * u64(k), a = 2 * i * 37 + 1; while ([&] { u64 x = a, y = tot; while (y) { u64 t = x % y; x = y; y = t; } return x != 1; }()) ++a;
    for (u64 j = 0; j < tot; ++j)
    {
        u64 z = j * a % tot; int x = int(z % u64(k)) - k / 2, y = int(z / u64(k)) - k / 2; P p{ x * 8, y * 8 }; if (i % 3 == 1) p = { x * 8 + y * 4, y * 200 }; if (i % 3 == 2) p = { x * 4 + x * x * 8, y * 4 + x * y * 4 };
        m.insert_point(ce::vec2<int32_t>{ p.x, p.y }, size_t(j)); if (j % (tot / 60 + 1) == 0) { qs.push_back({ p.x, p.y }); qs.push_back({ p.x + 4, p.y }); qs.push_back({ p.x + 1, p.y + 3 }); }
    }
    snap s = take(m); nontrivial(); look<T>(m, s, around<1>(qs), all_hints(s.f.size()), s.f.size() / 200 + 1);
}
MC_SWEEP(large_300, 6, 30, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<300>(i); }
MC_SWEEP(large_8192, 3, 12, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<8192>(i); }
