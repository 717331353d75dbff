//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over every history of constraint and point insertions from small sets of points, after each the constrained edges of the mesh compared with those before it and with the segment inserted
//@ note: Exact cover whenever no extra point was made; a chain within the stated distance otherwise; the cover of every earlier constrained edge; no mark that belongs to no constraint; success when nothing constrained is touched; repeating a covered constraint changes nothing.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: all histories of constraints and points among 3x3, 2x4, 3x2 and 9 spread points to depth 3 (4), of selected sets to depth 5 (6); every pair and triple of constraints among the points of a 4x4 grid at four scales; constraints through meshes of 30, 300 and 3000 points of 6 families (312 (816) meshes, 6 or 12 constraints each)
#include "cdtops.h"
using namespace mc;
using cdtops::P; using cdtops::i64; using cdtops::snap; using cdtops::half;
// closed segments
static bool on(P a, P b, P c) { return !cdtops::cross(a, b, c) && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); }
static bool touch(P a, P b, P c, P d)
{
    i64 x = cdtops::cross(a, b, c), y = cdtops::cross(a, b, d), z = cdtops::cross(c, d, a), w = cdtops::cross(c, d, b);
    if (x && y && z && w) return (x < 0) != (y < 0) && (z < 0) != (w < 0);
    return on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b);
}
// a chain of constrained edges from p to q with the fewest vertices off the segment, all within r: that number, or -1
static int chain(snap const& s, P p, P q, i64 r)
{
    struct st { P p; int d; bool done; }; std::vector<st> v{ { p, 0, false } };
    for (;;)
    {
        size_t best = v.size(); for (size_t i = 0; i < v.size(); ++i) if (!v[i].done && (best == v.size() || v[i].d < v[best].d)) best = i;
        if (best == v.size()) return -1;
        if (v[best].p == q) return v[best].d;
        v[best].done = true; P u = v[best].p; int d = v[best].d;
        for (half const& e : s.h)
        {
            if (!s.marked(e) || !(e.u == u || e.v == u)) continue;
            P w = e.u == u ? e.v : e.u; if (!cdtops::near(p, q, w, r)) continue;
            int n = d + (cdtops::cross(p, q, w) != 0); size_t k = 0; for (; k < v.size(); ++k) if (v[k].p == w) break;
            if (k == v.size()) v.push_back({ w, n, false }); else if (!v[k].done && n < v[k].d) v[k].d = n;
        }
    }
}
static i64 slack(i64 k) { return (3 * k + 1) / 2; }
template<class T> static void check(typename T::context& c)
{
    using namespace cdtops; using G = typename T::G;
    snap const& b = c.before; snap const& a = c.after;
    if (c.fresh) { for (auto& e : a.h) MC_CHECK(a.marked(e) == G::hull(e.u, e.v), "after reset the edge (%d,%d)-(%d,%d) %s constrained", e.u.x, e.u.y, e.v.x, e.v.y, a.marked(e) ? "is" : "is not"); return; }
    op const& o = c.last; P p = T::placed(o), q = T::placed(o, true); char w[200]; snprintf(w, sizeof w, "%s", T::text(o));
    bool e = o.k == edge || o.k == rawedge;
    for (auto& h : b.h) if (b.marked(h)) MC_CHECK(covered(a, h.u, h.v), "%s: (%d,%d)-(%d,%d) was constrained before and is no longer", w, h.u.x, h.u.y, h.v.x, h.v.y);
    // what is newly constrained
    std::vector<half> fresh; i64 off = 0;
    for (auto& h : a.h)
    {
        if (!a.marked(h)) continue; bool old = false;
        for (auto& g : b.h) if (b.marked(g) && on(g.u, g.v, h.u) && on(g.u, g.v, h.v)) { old = true; break; }
        if (old) continue;
        MC_CHECK(e && !(p == q), "%s marked the edge (%d,%d)-(%d,%d)", w, h.u.x, h.u.y, h.v.x, h.v.y);
        fresh.push_back(h);
    }
    std::vector<P> made; for (P v : a.v) if (!b.vertex(v) && !(v == p) && !(v == q)) made.push_back(v);
    // no more vertices than these can be on the way from p to q and off the segment
    {
        std::vector<P> o2; for (auto& h : a.h) if (a.marked(h) && !G::hull(h.u, h.v)) for (P v : { h.u, h.v }) if (cross(p, q, v)) o2.push_back(v);
        for (P v : made) if (cross(p, q, v)) o2.push_back(v);
        std::sort(o2.begin(), o2.end()); o2.erase(std::unique(o2.begin(), o2.end()), o2.end());
        for (off = i64(o2.size());;) { i64 k = 0; for (P v : o2) k += near(p, q, v, slack(off) << G::q); if (k == off) break; off = k; }
    }
    for (auto& h : fresh) for (P v : { h.u, h.v }) MC_CHECK(near(p, q, v, slack(off) << G::q), "%s marked the edge (%d,%d)-(%d,%d), %lld vertices are off the segment", w, h.u.x, h.u.y, h.v.x, h.v.y, off);
    for (P v : made)
    {
        MC_CHECK(e, "%s made the vertex (%d,%d)", w, v.x, v.y);
        MC_CHECK(near(p, q, v, slack(off) << G::q), "%s made the vertex (%d,%d) far from the segment, %lld are off it", w, v.x, v.y, off);
    }
    if (!e) return;
    if (c.result && !(p == q))
    {
        i64 r = 0; int k = -1; for (; r < 1000 && (k = chain(a, p, q, r << G::q)) < 0; ++r) {}
        MC_CHECK(k >= 0 && r <= slack(off), "%s succeeded, %s (%d vertices of it are off the segment, %lld near it)", w, k < 0 ? "no constrained edges lead from one end to the other" : "the chain of constrained edges is too far away", k, off);
        if (made.empty()) outcome(u64(k) * 64 + u64(r)); else outcome(u64(k) * 64 + u64(r) + 100000);
    }
    if (b.vertex(p) && b.vertex(q) && !(p == q) && covered(b, p, q)) MC_CHECK(c.result && made.empty() && fresh.empty(), "%s returned %d and made %zu vertices and %zu edges, it was there before", w, c.result, made.size(), fresh.size());
    if (!G::interior(p) || !G::interior(q)) return;
    // an end of a part is rounded to within a unit and a half: without extra vertices it has to be one of the mesh
    bool close = false; for (P v : a.v) if (cross(p, q, v) && near(p, q, v, i64(2) << G::q)) { close = true; break; }
    if (c.result && made.empty() && !close) MC_CHECK(covered(a, p, q), "%s succeeded without extra vertices, the segment is not covered", w);
    // with extra vertices the chain may come to touch what is that close to the segment
    i64 reach = slack(off) << G::q; bool free = true;
    for (auto& h : b.h) if (b.marked(h) && !G::hull(h.u, h.v) && (touch(p, q, h.u, h.v) || (off && (near(p, q, h.u, reach) || near(p, q, h.v, reach) || near(h.u, h.v, p, reach) || near(h.u, h.v, q, reach))))) { free = false; break; }
    if (free && a.v.size() + 1 < T::limit) MC_CHECK(c.result, "%s was refused, it touches no constraint", w);
}
using namespace cdtops;
#ifdef SMALL
#define D(X) ((X) > 2 ? (X) / 2 + 1 : (X))
#else
#define D(X) (X)
#endif
static std::vector<P> far9() { return { { -30000, -30000 }, { 32766, -32766 }, { -32766, 32766 }, { 32766, 32766 }, { -32766, -2 }, { 2, 32766 }, { 32766, 0 }, { 0, -32766 }, { 100, 98 } }; }
static std::vector<P> wheel() { return { { 0, 0 }, { 10, 0 }, { 8, 6 }, { 6, 8 }, { 0, 10 }, { -6, 8 }, { -8, 6 }, { -10, 0 }, { -6, -8 }, { 0, -10 }, { 8, -6 } }; }
static std::vector<P> corners() { return { { -32768, -32768 }, { 32767, -32768 }, { -32768, 32767 }, { 32767, 32767 }, { 0, 0 }, { 32766, -5 }, { -20000, -20000 }, { 32766, 32766 } }; }
CDT_BFS(grid_3x3, 0, 512, D(3), D(4), edges(grid_points(3, 3, 2, 2, -2, -2), false, true) + points(std::vector<P>{ { 0, 0 }, { 2, 0 }, { -2, 2 } }))
CDT_BFS(both_ways, 0, 512, D(3), D(3), edges(grid_points(3, 3, 2, 2, -2, -2), true))
CDT_BFS(grid_2x3, 0, 512, D(4), D(6), edges(grid_points(2, 3, 2, 2, 0, -2), true) + points(grid_points(2, 3, 2, 2, 0, -2)))
CDT_BFS(grid_2x4, 0, 512, D(4), D(4), edges(grid_points(2, 4, 4, 6, 0, -2), false))
CDT_BFS(wide, 0, 512, D(3), D(4), edges(grid_points(3, 3, 14, 10, -16, -8, 4), false))
CDT_BFS(wider, 0, 512, D(3), D(3), edges(grid_points(3, 3, 602, 1410, -160, -818, 206), true))
CDT_BFS(spread, 0, 512, D(3), D(4), edges(wheel(), false))
CDT_BFS(far, 0, 512, D(3), D(3), edges(far9(), false) + points(std::vector<P>{ { 2, 2 } }))
CDT_BFS(corner, 0, 512, D(3), D(4), edges(corners(), true, true, { 0 }, rawedge))
CDT_BFS(odd, 0, 512, D(3), D(4), edges(grid_points(3, 2, 3, 5, -3, -2), true, false, { 0, ~0u }, rawedge))
CDT_BFS(scaled, 4, 512, D(3), D(4), edges(grid_points(3, 3, 48, 31, -49, -33), false))
#define PAIRS(NAME, S, X, Y) CDT_BFS(NAME, 0, 512, D(3), D(3), edges(grid_points(4, 4, 2 * (S), 2 * (S) + X, -3 * (S) / 2 * 2, -(S), Y), false))
PAIRS(grid_4x4, 1, 0, 0) PAIRS(grid_4x4_s, 7, 0, 2) PAIRS(grid_4x4_m, 50, 14, 6) PAIRS(grid_4x4_l, 3000, 622, 50)
#include "cdtwide.inc"
