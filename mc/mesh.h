// mesh.h - what the checks of the triangulation (C34 .. C38, C41) observe of a mesh through its public interface
#pragma once
#include "mc.h"
#include <cstdio>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <string>
#include "ce/ce.h"
#include "ce/math.h"
#include "ce/cdt.h"

namespace mesh
{
    using i64 = long long; using i128 = __int128; using mc::u64;
    struct P { int x, y; bool operator==(P o) const { return x == o.x && y == o.y; } bool operator<(P o) const { return x < o.x || (x == o.x && y < o.y); } };
    inline i64 cross(P a, P b, P c) { return (i64(b.x) - a.x) * (i64(c.y) - a.y) - (i64(b.y) - a.y) * (i64(c.x) - a.x); }
    inline u64 pack(P a) { return u64(uint32_t(a.x)) << 32 | uint32_t(a.y); }

    struct face { P p[3]; unsigned e[3]; bool c[3]; unsigned data; };
    struct half { u64 a, b; int f, i; P u, v; bool operator<(half const& o) const { return a < o.a || (a == o.a && b < o.b); } };

    struct snap
    {
        std::vector<face> f;
        std::vector<half> h;          // directed edges sorted by end points
        std::vector<P> v;             // distinct vertices, sorted
        half const* find(P u, P w) const
        {
            half k{ pack(u), pack(w), 0, 0, u, w }; auto it = std::lower_bound(h.begin(), h.end(), k);
            return it != h.end() && it->a == k.a && it->b == k.b ? &*it : nullptr;
        }
        bool vertex(P p) const { return std::binary_search(v.begin(), v.end(), p); }
        bool marked(half const& e) const { return f[size_t(e.f)].c[e.i]; }
        u64 hash() const { mc::hasher s; for (auto& k : f) { for (int i = 0; i < 3; ++i) { s.u(pack(k.p[i])); s.u(k.e[i] * 2 + k.c[i]); } s.u(k.data); } return s; }
        bool operator==(snap const& o) const
        {
            if (f.size() != o.f.size()) return false;
            for (size_t k = 0; k < f.size(); ++k) for (int i = 0; i < 3; ++i) if (!(f[k].p[i] == o.f[k].p[i]) || f[k].e[i] != o.f[k].e[i] || f[k].c[i] != o.f[k].c[i] || f[k].data != o.f[k].data) return false;
            return true;
        }
    };

    template<class M> snap take(M const& m)
    {
        snap s;
        for (auto k : m.faces())
        {
            MC_CHECK(s.f.size() < 20000, "the face view does not end");
            face g{}; for (int i = 0; i < 3; ++i) { g.p[i] = { k.ps[i].x, k.ps[i].y }; g.e[i] = unsigned(k.es[i]); g.c[i] = k.cs[i]; } g.data = k.data; s.f.push_back(g);
        }
        for (size_t k = 0; k < s.f.size(); ++k) for (int i = 0; i < 3; ++i) { P u = s.f[k].p[(i + 1) % 3], w = s.f[k].p[(i + 2) % 3]; s.h.push_back({ pack(u), pack(w), int(k), i, u, w }); s.v.push_back(s.f[k].p[i]); }
        std::sort(s.h.begin(), s.h.end()); std::sort(s.v.begin(), s.v.end()); s.v.erase(std::unique(s.v.begin(), s.v.end()), s.v.end());
        return s;
    }

    // internal coordinates to world coordinates and the outer boundary
    template<int Q> struct grid
    {
        static constexpr int q = Q;
        static constexpr int lo = -32768 * (1 << Q), hi = 32767 * (1 << Q);
        static P snapped(P p) { return { (p.x >> Q & ~1) * (1 << Q), (p.y >> Q & ~1) * (1 << Q) }; }
        static bool corner(P p) { return (p.x == lo || p.x == hi) && (p.y == lo || p.y == hi); }
        static bool interior(P p) { return p.x > lo && p.x < hi && p.y > lo && p.y < hi; }
        static bool hull(P a, P b) { return (a.x == b.x && (a.x == lo || a.x == hi)) || (a.y == b.y && (a.y == lo || a.y == hi)); }
    };

    // the ends of an edge and the vertex on its other side, by its number, and whether it can be flipped
    template<class M> auto ends(M const& m, snap const& s, half const& e, unsigned id, char const* when, int) -> decltype(m.edge_vert_a(ce::uint(id)), m.edge_vert_b(ce::uint(id)), m.edge_vert_o(ce::uint(id)), void())
    {
        auto a = m.edge_vert_a(ce::uint(id)), b = m.edge_vert_b(ce::uint(id)), o = m.edge_vert_o(ce::uint(id)); P f = s.f[size_t(e.f)].p[e.i];
        MC_CHECK(a.x == e.u.x && a.y == e.u.y && b.x == e.v.x && b.y == e.v.y, "%s: the ends of the edge %u are (%d,%d)-(%d,%d), its face has (%d,%d)-(%d,%d)", when, id, a.x, a.y, b.x, b.y, e.u.x, e.u.y, e.v.x, e.v.y);
        MC_CHECK(o.x == f.x && o.y == f.y, "%s: opposite the edge %u is (%d,%d), its face has (%d,%d)", when, id, o.x, o.y, f.x, f.y);
    }
    template<class M> void ends(M const&, snap const&, half const&, unsigned, char const*, long) {}
    template<class M> auto flips(M const& m, snap const& s, half const& e, half const& t, unsigned id, char const* when, int) -> decltype(m.can_flip(size_t(id)), void())
    {
        P o = s.f[size_t(e.f)].p[e.i], f = s.f[size_t(t.f)].p[t.i];
        bool want = !s.marked(e) && cross(o, e.u, f) < 0 && cross(f, e.v, o) < 0;
        MC_CHECK(m.can_flip(id) == want, "%s: the edge (%d,%d)-(%d,%d) between (%d,%d) and (%d,%d), %sconstrained, %s be flipped", when, e.u.x, e.u.y, e.v.x, e.v.y, o.x, o.y, f.x, f.y, s.marked(e) ? "" : "not ", want ? "can't" : "can");
    }
    template<class M> void flips(M const&, snap const&, half const&, half const&, unsigned, char const*, long) {}

    // everything C34 says about one mesh
    template<int Q, class M> void valid(M const& m, snap const& s, char const* when)
    {
        using G = grid<Q>;
        i128 area = 0; size_t edges = 0;
        for (size_t k = 0; k < s.f.size(); ++k)
        {
            auto& g = s.f[k]; i64 a = cross(g.p[0], g.p[1], g.p[2]);
            MC_CHECK(a < 0, "%s: face %zu (%d,%d) (%d,%d) (%d,%d) is %s", when, k, g.p[0].x, g.p[0].y, g.p[1].x, g.p[1].y, g.p[2].x, g.p[2].y, a ? "turned over" : "degenerate");
            area -= a;
        }
        i128 side = i128(65535) << Q; MC_CHECK(area == side * side * 2, "%s: the faces cover an area of %.0f, the bounding square has %.0f", when, double(area) / 2, double(side) * double(side));
        for (size_t k = 0; k + 1 < s.h.size(); ++k) MC_CHECK(s.h[k] < s.h[k + 1], "%s: two faces have the edge (%d,%d)-(%d,%d) on the same side", when, s.h[k].u.x, s.h[k].u.y, s.h[k].v.x, s.h[k].v.y);
        size_t inner = 0;
        for (auto& e : s.h)
        {
            unsigned twin = s.f[size_t(e.f)].e[e.i]; half const* t = s.find(e.v, e.u);
            if (!t) { MC_CHECK(G::hull(e.u, e.v), "%s: the edge (%d,%d)-(%d,%d) has no face on its other side", when, e.u.x, e.u.y, e.v.x, e.v.y); MC_CHECK(twin == 0, "%s: the outer edge (%d,%d)-(%d,%d) names the twin %u", when, e.u.x, e.u.y, e.v.x, e.v.y, twin); continue; }
            ++inner;
            MC_CHECK(s.marked(e) == s.marked(*t), "%s: the edge (%d,%d)-(%d,%d) is constrained on one side only", when, e.u.x, e.u.y, e.v.x, e.v.y);
            MC_CHECK(twin && ce::is_edge(twin) && twin < 4 * (s.f.size() + 6), "%s: the edge (%d,%d)-(%d,%d) names the twin %u", when, e.u.x, e.u.y, e.v.x, e.v.y, twin);
            auto w = m[typename M::edge_id_t(twin)];
            MC_CHECK(w.u.x == e.v.x && w.u.y == e.v.y && w.v.x == e.u.x && w.v.y == e.u.y && w.constrained == s.marked(e), "%s: the twin of (%d,%d)-(%d,%d) is (%d,%d)-(%d,%d)", when, e.u.x, e.u.y, e.v.x, e.v.y, w.u.x, w.u.y, w.v.x, w.v.y);
            unsigned own = s.f[size_t(t->f)].e[t->i];
            MC_CHECK(w.primary != m[typename M::edge_id_t(own)].primary, "%s: both or none of the two halves %u and %u of (%d,%d)-(%d,%d) are primary", when, own, twin, e.u.x, e.u.y, e.v.x, e.v.y);
            MC_CHECK(ce::is_edge(own) && !ce::is_face(own) && ce::is_face(own | 3) && !ce::is_edge(own | 3), "%s: is_edge and is_face on the numbers %u of an edge and %u of its face", when, own, own | 3);
            auto g = m[typename M::face_id_t(twin | 3)]; face const& tf = s.f[size_t(t->f)];
            for (int i = 0; i < 3; ++i) MC_CHECK(g.ps[i].x == tf.p[i].x && g.ps[i].y == tf.p[i].y && unsigned(g.es[i]) == tf.e[i] && g.cs[i] == tf.c[i] && g.data == tf.data, "%s: the face %u is not the one its edge %u belongs to", when, twin | 3, twin);
            ends(m, s, *t, twin, when, 0);
            flips(m, s, *t, e, twin, when, 0);
        }
        // the outer edges, by their numbers: those of the same face as a number some neighbour names
        for (auto& e : s.h)
        {
            half const* t = s.find(e.v, e.u); if (!t) continue;
            unsigned own = s.f[size_t(t->f)].e[t->i];
            for (int i = 0; i < 3; ++i) if (!s.f[size_t(e.f)].e[i])
            {
                auto& g = s.f[size_t(e.f)]; P a = g.p[(i + 1) % 3], b = g.p[(i + 2) % 3]; bool found = false;
                for (unsigned n = own & ~3u; n < (own | 3u); ++n)
                {
                    auto w = m[typename M::edge_id_t(n)];
                    if (!((w.u.x == a.x && w.u.y == a.y && w.v.x == b.x && w.v.y == b.y) || (w.u.x == b.x && w.u.y == b.y && w.v.x == a.x && w.v.y == a.y))) continue;
                    found = true; MC_CHECK(w.primary, "%s: the outer edge %u from (%d,%d) to (%d,%d) is not primary", when, n, a.x, a.y, b.x, b.y);
                    MC_CHECK(w.constrained == g.c[i], "%s: the constraint flag of the outer edge %u", when, n);
                }
                MC_CHECK(found, "%s: no number of the face of edge %u is the outer edge (%d,%d)-(%d,%d)", when, own, a.x, a.y, b.x, b.y);
            }
        }
        MC_CHECK(s.f.size() == 2 * s.v.size() - 6 && s.h.size() - inner == 4, "%s: %zu faces on %zu vertices, %zu outer edges", when, s.f.size(), s.v.size(), s.h.size() - inner);
        size_t primary = 0; std::vector<half> seen;
        for (auto e : m.edges())
        {
            MC_CHECK(edges < 3 * s.f.size(), "%s: the edge view has more than %zu edges", when, 3 * s.f.size());
            P u{ e.u.x, e.u.y }, v{ e.v.x, e.v.y }; half const* q = s.find(u, v);
            MC_CHECK(q, "%s: the edge view shows (%d,%d)-(%d,%d) which no face has", when, u.x, u.y, v.x, v.y);
            MC_CHECK(e.constrained == s.marked(*q), "%s: the constraint flag of (%d,%d)-(%d,%d) in the edge view", when, u.x, u.y, v.x, v.y);
            seen.push_back({ pack(u), pack(v), e.primary, 0, u, v }); primary += e.primary; ++edges;
        }
        MC_CHECK(edges == 3 * s.f.size(), "%s: the edge view has %zu edges, the faces %zu", when, edges, 3 * s.f.size());
        std::sort(seen.begin(), seen.end());
        for (size_t k = 0; k < seen.size(); ++k)
        {
            MC_CHECK(!k || seen[k - 1] < seen[k], "%s: the edge view shows (%d,%d)-(%d,%d) twice", when, seen[k].u.x, seen[k].u.y, seen[k].v.x, seen[k].v.y);
            half r{ seen[k].b, seen[k].a, 0, 0, {}, {} }; auto it = std::lower_bound(seen.begin(), seen.end(), r);
            bool has = it != seen.end() && it->a == r.a && it->b == r.b;
            MC_CHECK(!has || it->f != seen[k].f, "%s: both or none of the two halves of (%d,%d)-(%d,%d) are primary", when, seen[k].u.x, seen[k].u.y, seen[k].v.x, seen[k].v.y);
            MC_CHECK(has || seen[k].f, "%s: the outer edge (%d,%d)-(%d,%d) is not primary", when, seen[k].u.x, seen[k].u.y, seen[k].v.x, seen[k].v.y);
        }
        for (P c : { P{ G::lo, G::lo }, P{ G::lo, G::hi }, P{ G::hi, G::lo }, P{ G::hi, G::hi } }) MC_CHECK(s.vertex(c), "%s: the corner (%d,%d) of the bounding square is no vertex", when, c.x, c.y);
    }

    // d strictly inside the circle through a, b, c (either orientation), exactly
    inline bool in_circle(P a, P b, P c, P d)
    {
        i64 ax = i64(a.x) - d.x, ay = i64(a.y) - d.y, bx = i64(b.x) - d.x, by = i64(b.y) - d.y, cx = i64(c.x) - d.x, cy = i64(c.y) - d.y;
        i128 t = i128(ax * ax + ay * ay) * (bx * cy - by * cx) + i128(bx * bx + by * by) * (cx * ay - cy * ax) + i128(cx * cx + cy * cy) * (ax * by - ay * bx);
        return cross(a, b, c) > 0 ? t > 0 : t < 0;
    }
    // first violation of the criterion of C35, if any
    inline half const* not_delaunay(snap const& s, P& far)
    {
        for (auto& e : s.h)
        {
            if (s.marked(e)) continue; half const* t = s.find(e.v, e.u); if (!t || t < &e) continue;
            auto& g = s.f[size_t(e.f)]; P d = s.f[size_t(t->f)].p[t->i];
            if (in_circle(g.p[0], g.p[1], g.p[2], d)) { far = d; return &e; }
        }
        return nullptr;
    }
    inline void delaunay(snap const& s, char const* when)
    {
        P d; if (half const* e = not_delaunay(s, d)) { auto& g = s.f[size_t(e->f)]; mc::fail("%s: (%d,%d) lies inside the circle through (%d,%d) (%d,%d) (%d,%d), the edge (%d,%d)-(%d,%d) is not constrained", when, d.x, d.y, g.p[0].x, g.p[0].y, g.p[1].x, g.p[1].y, g.p[2].x, g.p[2].y, e->u.x, e->u.y, e->v.x, e->v.y); }
    }
    // (a, b) is covered exactly by constrained edges on the segment
    inline bool covered(snap const& s, P a, P b)
    {
        while (!(a == b))
        {
            half const* next = nullptr; i64 best = 0;
            half k{ pack(a), 0, 0, 0, a, a };
            for (auto it = std::lower_bound(s.h.begin(), s.h.end(), k); it != s.h.end() && it->a == k.a; ++it)
            {
                if (!s.marked(*it) || cross(a, b, it->v)) continue;
                i64 d = (i64(it->v.x) - a.x) * (i64(b.x) - a.x) + (i64(it->v.y) - a.y) * (i64(b.y) - a.y); if (d > 0) { next = &*it; best = d; }
            }
            if (!next)  // an outer edge has only one direction
                for (auto& e : s.h) if (e.v == a && s.marked(e) && !cross(a, b, e.u)) { i64 d = (i64(e.u.x) - a.x) * (i64(b.x) - a.x) + (i64(e.u.y) - a.y) * (i64(b.y) - a.y); if (d > 0) { i64 l = (i64(b.x) - a.x) * (i64(b.x) - a.x) + (i64(b.y) - a.y) * (i64(b.y) - a.y); if (d > l) return false; a = e.u; best = -1; break; } }
            if (best < 0) continue;
            if (!next) return false;
            i64 l = (i64(b.x) - a.x) * (i64(b.x) - a.x) + (i64(b.y) - a.y) * (i64(b.y) - a.y); if (best > l) return false;
            a = next->v;
        }
        return true;
    }
    // squared distance of c from the segment a b is at most r^2
    inline bool near(P a, P b, P c, i64 r)
    {
        i64 dx = i64(b.x) - a.x, dy = i64(b.y) - a.y, ex = i64(c.x) - a.x, ey = i64(c.y) - a.y, l = dx * dx + dy * dy, t = ex * dx + ey * dy;
        if (t <= 0) return ex * ex + ey * ey <= r * r;
        if (t >= l) { i64 fx = i64(c.x) - b.x, fy = i64(c.y) - b.y; return fx * fx + fy * fy <= r * r; }
        i128 x = i128(dx) * ey - i128(dy) * ex; return x * x <= i128(l) * (r * r);
    }
}
