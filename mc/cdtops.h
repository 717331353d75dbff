// cdtops.h - histories of operations on a triangulation, shared by the checks C34 .. C38 and C41
#pragma once
#include "mesh.h"
#include <cstring>
#include <cmath>
#include <numeric>
#include <functional>
#include <type_traits>

namespace cdtops
{
    using namespace mesh;
    enum kind { point, edge, rawpoint, rawedge, fill, fillall, reset, turn, several };
    struct op { kind k; P a, b; unsigned hint; std::vector<op> sub = {}; };
    using ops = std::vector<op>;

    inline std::vector<P> operator+(std::vector<P> a, std::vector<P> const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    inline ops operator+(ops a, ops const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    inline std::vector<P> grid_points(int w, int h, int sx, int sy, int x0, int y0, int shear = 0) { std::vector<P> r; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) r.push_back({ x0 + x * sx + y * shear, y0 + y * sy }); return r; }
    inline ops points(std::vector<P> const& ps, std::vector<unsigned> const& hints = { 0 }, kind k = point) { ops r; for (P p : ps) for (unsigned h : hints) r.push_back({ k, p, p, h }); return r; }
    inline ops edges(std::vector<P> const& ps, bool both, bool self = false, std::vector<unsigned> const& hints = { 0 }, kind k = edge)
    {
        ops r; for (size_t i = 0; i < ps.size(); ++i) for (size_t j = both ? 0 : i; j < ps.size(); ++j) if (i != j || self) for (unsigned h : hints) r.push_back({ k, ps[i], ps[j], h });
        return r;
    }

    // constraints all around: one operation
    inline ops loop(std::vector<P> const& ps, kind k = edge) { op o{ several, ps[0], ps[0], 0 }; for (size_t i = 0; i < ps.size(); ++i) o.sub.push_back({ k, ps[i], ps[(i + 1) % ps.size()], 0 }); return { o }; }
    inline ops path(std::vector<P> const& ps, kind k = edge) { op o{ several, ps[0], ps[0], 0 }; for (size_t i = 0; i + 1 < ps.size(); ++i) o.sub.push_back({ k, ps[i], ps[i + 1], 0 }); return { o }; }
    inline ops turns(unsigned faces) { ops r; for (unsigned f = 0; f < faces; ++f) for (unsigned i = 0; i < 3; ++i) r.push_back({ turn, {}, {}, 4 * (f + 6) + i }); return r; }
    inline ops fills(std::vector<P> const& ps, std::vector<unsigned> const& labels) { ops r; for (P p : ps) for (unsigned l : labels) r.push_back({ fill, p, p, l }); return r; }

    template<size_t Q, size_t N> struct tri
    {
        using M = std::conditional_t<Q == 0 && N == 8192, ce::cdt<>, ce::cdt<Q, N>>; using G = grid<int(Q)>;
        static constexpr size_t limit = N < 8192 ? N : 8192;

        static P placed(op const& o, bool second = false) { P p = second ? o.b : o.a; return o.k == rawpoint || o.k == rawedge ? P{ p.x * (1 << Q), p.y * (1 << Q) } : G::snapped(p); }
        static char const* text(op const& o)
        {
            static char t[4][160]; static int i; char* r = t[i++ & 3];
            switch (o.k)
            {
            case point: snprintf(r, 160, "insert_point({%d,%d}, %u)", o.a.x, o.a.y, o.hint); break;
            case rawpoint: snprintf(r, 160, "insert_point(%d, %d, %u)", o.a.x, o.a.y, o.hint); break;
            case edge: snprintf(r, 160, "insert_edge({%d,%d}, {%d,%d}, %u)", o.a.x, o.a.y, o.b.x, o.b.y, o.hint); break;
            case rawedge: snprintf(r, 160, "insert_edge(%d, %d, %d, %d, %u)", o.a.x, o.a.y, o.b.x, o.b.y, o.hint); break;
            case fill: snprintf(r, 160, "fill(locate(%d,%d), %u)", o.a.x, o.a.y, o.hint); break;
            case fillall: snprintf(r, 160, "label every region"); break;
            case reset: snprintf(r, 160, "reset()"); break;
            case turn: snprintf(r, 160, "try_flip(%u)", o.hint); break;
            case several: { int n = 0; for (op const& u : o.sub) if (n < 150) n += snprintf(r + n, size_t(160 - n), "%s(%d,%d)-(%d,%d)", n ? " " : "", u.a.x, u.a.y, u.b.x, u.b.y); break; }
            }
            return r;
        }
        // an edge shared by two faces, by its number; any other number is left alone
        template<class X> static auto flip_edge(X& m, unsigned id, int) -> decltype(bool(m.try_flip(size_t(id))))
        {
            for (auto k : m.faces()) for (int i = 0; i < 3; ++i) if (unsigned(k.es[i]) == id) return m.try_flip(size_t(id));
            return false;
        }
        template<class X> static bool flip_edge(X&, unsigned, long) { return false; }
        static bool apply(M& m, op const& o)
        {
            switch (o.k)
            {
            case point: return m.insert_point(ce::vec2<int32_t>{ o.a.x, o.a.y }, size_t(o.hint));
            case edge: return m.insert_edge(ce::vec2<int32_t>{ o.a.x, o.a.y }, ce::vec2<int32_t>{ o.b.x, o.b.y }, size_t(o.hint));
            case rawpoint: return m.insert_point(int64_t(o.a.x), int64_t(o.a.y), size_t(o.hint)) != 0;
            case rawedge: return m.insert_edge(int64_t(o.a.x), int64_t(o.a.y), int64_t(o.b.x), int64_t(o.b.y), size_t(o.hint));
            case fill: m.fill(m.locate(o.a.x, o.a.y, 0u), uint16_t(o.hint)); return true;
            case fillall: label(m); return true;
            case reset: m.reset(); return true;
            case turn: return flip_edge(m, o.hint, 0);
            case several: { bool r = true; for (op const& u : o.sub) r = apply(m, u) && r; return r; }
            }
            return false;
        }
        // every region bounded by constraints gets its own label, through locate and fill
        static void label(M& m)
        {
            snap s = take(m); unsigned next = 1; std::vector<bool> done(s.f.size());
            for (size_t k = 0; k < s.f.size(); ++k)
            {
                if (done[k]) continue; std::vector<size_t> q{ k }; done[k] = true;
                for (size_t i = 0; i < q.size(); ++i) for (int e = 0; e < 3; ++e) if (!s.f[q[i]].c[e] && s.f[q[i]].e[e]) { size_t t = s.f[q[i]].e[e] / 4 - 6; if (!done[t]) done[t] = true, q.push_back(t); }
                m.fill(ce::uint(4 * (k + 6)), uint16_t(next++));
            }
        }

        // one step of the search: the state before the last operation is kept from one call to the next
        struct context { M m; snap before, after; op last; bool result, fresh; ops const* list; unsigned char const* hist; int n; };
        static inline bool whole = false;   // the state is the whole object, with what is left of earlier meshes
        static mc::u64 body(ops const& list, unsigned char const* hist, int n, bool& ok, void (*check)(context&))
        {
            static context c; static M base; static snap bsnap; static unsigned char done[64]; static int depth = -1;
            for (int k = 0; k < n; ++k) if (hist[k] >= list.size()) { ok = false; return 0; }
            c.list = &list; c.hist = hist; c.n = n;
            if (n == 0) { memset((void*)&c.m, 0x5a, sizeof c.m); c.m.reset(); c.after = take(c.m); c.fresh = true; c.before = c.after; check(c); return c.after.hash(); }
            if (depth != n - 1 || memcmp(done, hist, size_t(n - 1)))
            {
                memset((void*)&base, 0x5a, sizeof base); base.reset(); for (int k = 0; k < n - 1; ++k) apply(base, list[hist[k]]);
                bsnap = take(base); depth = n - 1; memcpy(done, hist, size_t(n - 1));
            }
            for (int k = 0; k < n - 1; ++k) mc::trace("%s", text(list[hist[k]]));
            op const& o = list[hist[n - 1]]; mc::trace("%s", text(o));
            c.m = base; c.before = bsnap; c.last = o; c.fresh = false;
            c.result = apply(c.m, o); mc::step(1);
            c.after = take(c.m); mc::trace("-> %d, %zu vertices", c.result, c.after.v.size());
            mc::u64 h = c.after.hash(); if (whole) { mc::hasher g; g.b(&c.m, sizeof c.m); h = g; }
            check(c);
            if (mc::want_sample()) mc::sample("after %d operations, the last %s -> %d: %zu vertices, %zu faces", n, text(o), c.result, c.after.v.size(), c.after.f.size());
            { mc::hasher g; g.u(u64(c.result)); g.u(c.after.v.size() - c.before.v.size()); g.u(o.k); g.u(c.after == c.before); mc::outcome(g); }
            return h;
        }
    };
}

// histories of one set of operations, to a depth
#define CDT_BFS(NAME, Q, N, DQ, DT, ...) \
    static cdtops::ops const& ops_##NAME() { using namespace cdtops; static cdtops::ops const l = __VA_ARGS__; return l; } \
    MC_BFS(NAME, int(ops_##NAME().size()), DQ, DT) { return cdtops::tri<Q, N>::body(ops_##NAME(), hist, n, ok, check<cdtops::tri<Q, N>>); }
