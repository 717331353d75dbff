//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over every history of point and constraint insertions from small sets of points, every reached mesh compared with what the insertions before it require
//@ note: The state is the whole mesh as its views show it (numbering, twins, flags and labels included). Grids with all cocircular and collinear cases, off-grid and negative coordinates at several scales, corners, outer boundary and beyond, extremes of the coordinate range, stale hints, capacities 4 to 8 and orders of large point sets up to the full capacity.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: every order of a 3x3 grid (with hints: of 2x3); 4x4 to depth 4 (5); constraints among 3x3 and 9 spread points to depth 3 (4); boundary and extreme coordinates to depth 4 (5); capacities 4..8; 5 order families of up to 8192 points; constraints through meshes of 30, 300 and 3000 points of 6 families (312 (816) meshes, 6 or 12 constraints each)
#include "cdtops.h"
using namespace mc;
// one flip: the two faces beside the edge become the other two of their quadrilateral if it is strictly convex, nothing else changes
template<class T> static void flipped(typename T::context& c, char const* w)
{
    using namespace cdtops;
    snap const& b = c.before; snap const& a = c.after; half const* e = nullptr;
    for (auto& h : b.h) if (b.f[size_t(h.f)].e[h.i] == c.last.hint) e = &h;
    half const* t = e ? b.find(e->v, e->u) : nullptr;
    P o{}, f{}; if (t) o = b.f[size_t(e->f)].p[e->i], f = b.f[size_t(t->f)].p[t->i];
    bool can = t && !b.marked(*e) && cross(o, e->u, f) < 0 && cross(f, e->v, o) < 0;
    MC_CHECK(c.result == can, "%s returned %d, the edge is %s", w, c.result, !t ? "not there" : b.marked(*e) ? "constrained" : can ? "the diagonal of a convex quadrilateral" : "no diagonal of a convex quadrilateral");
    if (!can) { MC_CHECK(a == b, "%s changed the mesh though it was refused", w); return; }
    MC_CHECK(a.h.size() == b.h.size() && !a.find(e->u, e->v) && a.find(o, f) && a.find(f, o), "%s: (%d,%d)-(%d,%d) is not replaced by (%d,%d)-(%d,%d)", w, e->u.x, e->u.y, e->v.x, e->v.y, o.x, o.y, f.x, f.y);
    for (auto& h : b.h) if (!(h.u == e->u && h.v == e->v) && !(h.v == e->u && h.u == e->v)) { half const* k = a.find(h.u, h.v); MC_CHECK(k && a.marked(*k) == b.marked(h), "%s changed the edge (%d,%d)-(%d,%d)", w, h.u.x, h.u.y, h.v.x, h.v.y); }
}
template<class T> static void check(typename T::context& c)
{
    using namespace cdtops; using G = typename T::G;
    snap const& b = c.before; snap const& a = c.after;
    char w[200]; snprintf(w, sizeof w, "%s", c.fresh ? "after reset" : T::text(c.last));
    valid<G::q>(c.m, a, w);
    if (c.fresh) { MC_CHECK(a.v.size() == 4, "a mesh has %zu vertices after reset", a.v.size()); return; }
    op const& o = c.last;
    if (o.k == turn) { flipped<T>(c, w); return; }
    P p = T::placed(o), q = T::placed(o, true);
    for (P v : b.v) MC_CHECK(a.vertex(v), "%s: the vertex (%d,%d) disappeared", w, v.x, v.y);
    MC_CHECK(a.v.size() <= T::limit, "%s: %zu vertices in a mesh of %zu", w, a.v.size(), T::limit);
    bool e = o.k == edge || o.k == rawedge;
    // what inserting a point into a set of vertices gives
    auto takes = [&](P x, size_t have, bool is) { return is || (G::interior(x) && have < T::limit); };
    bool hp = b.vertex(p), tp = takes(p, b.v.size(), hp);
    if (!e)
    {
        MC_CHECK(c.result == tp, "%s returned %d: the point is %s%s, the mesh has %zu of %zu vertices", w, c.result, hp ? "a vertex" : G::interior(p) ? "inside" : "not inside", "", b.v.size(), T::limit);
        if (!tp || hp) MC_CHECK(a == b, "%s changed the mesh though the point was %s", w, hp ? "there" : "refused");
        else MC_CHECK(a.v.size() == b.v.size() + 1 && a.vertex(p), "%s: %zu vertices before, %zu after, (%d,%d) is %s", w, b.v.size(), a.v.size(), p.x, p.y, a.vertex(p) ? "there" : "missing");
        return;
    }
    if (!tp) { MC_CHECK(!c.result && a == b, "%s returned %d and %s the mesh, the first point can't be inserted", w, c.result, a == b ? "left" : "changed"); return; }
    MC_CHECK(a.vertex(p), "%s: the first point (%d,%d) is missing", w, p.x, p.y);
    size_t have = b.v.size() + !hp; bool hq = b.vertex(q) || p == q, tq = takes(q, have, hq);
    if (!tq) { MC_CHECK(!c.result && a.v.size() == have, "%s returned %d with %zu vertices (%zu before), the second point can't be inserted", w, c.result, a.v.size(), b.v.size()); return; }
    MC_CHECK(a.vertex(q), "%s: the second point (%d,%d) is missing", w, q.x, q.y);
    if (p == q) MC_CHECK(c.result && a.v.size() == have, "%s returned %d with %zu vertices (%zu before)", w, c.result, a.v.size(), b.v.size());
}
template<class M> static void check_large(M const& m, cdtops::snap const& s, char const* w) { cdtops::valid<0>(m, s, w); }
#include "cdtsets.inc"

// single flips between insertions: the mesh is not Delaunay then, but it stays a triangulation
#ifndef SMALL
CDT_BFS(flips_2x2, 0, 64, 7, 9, points(grid_points(2, 2, 4, 6, -2, -2)) + turns(10))
CDT_BFS(flips_line, 0, 64, 7, 9, points({ { -2, 0 }, { 0, 0 }, { 2, 0 }, { 4, 2 } }) + turns(10))
CDT_BFS(flips_edges, 0, 64, 6, 7, points(grid_points(2, 2, 4, 6, -2, -2)) + edges(grid_points(2, 2, 4, 6, -2, -2), false) + turns(10))
#endif
#include "cdtwide.inc"
