//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over histories of insertions, fills and resets on one object, compared step by step with a fresh object that only sees what came after the last reset
//@ note: The state is the whole object, what is left behind the live part included. The fresh object lies in memory filled with other values; faces, edges (in order), flags, labels, results and the answers of locate for a set of points and hints have to be equal. A further object that replays the whole history has to be equal too.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ config msan: -O1 -fsanitize=memory -fno-sanitize-recover=memory -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: histories of up to 5 (6) operations with a reset at any place, 14..20 operations, meshes of capacity 9 to 64; after filling meshes of capacity 9, 64 and 8192 completely
#include "cdtops.h"
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define JUNK(O, V) __msan_allocated_memory(&(O), sizeof (O))      // not to be read before it is written
#else
#define JUNK(O, V) memset((void*)&(O), V, sizeof (O))
#endif
using namespace mc;
using namespace cdtops;
template<class M> static void same(M const& x, M const& y, char const* w)
{
    snap a = take(x), b = take(y);
    MC_CHECK(a.f.size() == b.f.size(), "%s: %zu faces, a fresh mesh has %zu", w, a.f.size(), b.f.size());
    for (size_t k = 0; k < a.f.size(); ++k) for (int i = 0; i < 3; ++i)
    {
        auto& f = a.f[k]; auto& g = b.f[k];
        MC_CHECK(f.p[i] == g.p[i] && f.e[i] == g.e[i] && f.c[i] == g.c[i] && f.data == g.data, "%s: face %zu: vertex %d (%d,%d), twin %u, constraint %d, label %u; in a fresh mesh (%d,%d), %u, %d, %u", w, k, i, f.p[i].x, f.p[i].y, f.e[i], f.c[i], f.data, g.p[i].x, g.p[i].y, g.e[i], g.c[i], g.data);
    }
    auto u = x.edges(), v = y.edges(); auto i = u.begin(), ie = u.end(); auto j = v.begin(), je = v.end(); size_t n = 0;
    for (; i != ie && j != je; ++i, ++j, ++n) { auto e = *i; auto f = *j; MC_CHECK(e.u.x == f.u.x && e.u.y == f.u.y && e.v.x == f.v.x && e.v.y == f.v.y && e.primary == f.primary && e.constrained == f.constrained, "%s: edge %zu differs from that of a fresh mesh", w, n); }
    MC_CHECK(!(i != ie) && !(j != je), "%s: the edge views end at different places", w);
    for (int px : { 0, 1, -3, 4, 30000, -32768, 32767, 40000 }) for (int py : { 0, -1, 2, 30001, -32768 }) for (unsigned h : { 0u, 24u, 29u, 55u, ~0u })
    {
        unsigned p = unsigned(x.locate(px, py, h)), q = unsigned(y.locate(px, py, h)); MC_CHECK(p == q, "%s: locate(%d, %d, %u) is %u, in a fresh mesh %u", w, px, py, h, p, q);
        if (p) { auto f = x[typename M::face_id_t(p)]; for (int k = 0; k < 3; ++k) MC_CHECK(cross({ f.ps[k].x, f.ps[k].y }, { f.ps[(k + 1) % 3].x, f.ps[(k + 1) % 3].y }, { px, py }) <= 0, "%s: the face %u does not contain (%d,%d)", w, p, px, py); }
    }
}
template<class T> static void check(typename T::context& c)
{
    static typename T::M f; JUNK(f, 0xa5); f.reset(); int from = 0; bool r = false;
    for (int k = 0; k < c.n; ++k) if ((*c.list)[c.hist[k]].k == reset) from = k + 1;
    for (int k = from; k < c.n; ++k) r = T::apply(f, (*c.list)[c.hist[k]]);
    char w[200]; snprintf(w, sizeof w, "%s", c.n ? T::text(c.last) : "after reset");
    if (from < c.n) MC_CHECK(r == c.result, "%s returns %d, on a fresh mesh %d", w, c.result, r);
    same(c.m, f, w);
    static typename T::M g; JUNK(g, 0); g.reset(); for (int k = 0; k < c.n; ++k) T::apply(g, (*c.list)[c.hist[k]]);
    same(c.m, g, w);
    for (auto& h : c.after.f) outcome(h.data);
}
#ifdef SMALL
#define D(X) ((X) > 3 ? 3 : (X))
#else
#define D(X) (X)
#endif
#define RESET_BFS(NAME, Q, N, DQ, DT, ...) \
    static ops const& ops_##NAME() { static ops const l = __VA_ARGS__; return l; } \
    MC_BFS(NAME, int(ops_##NAME().size()), DQ, DT) { tri<Q, N>::whole = true; return tri<Q, N>::body(ops_##NAME(), hist, n, ok, check<tri<Q, N>>); }
static ops clean() { return { op{ reset, { 0, 0 }, { 0, 0 }, 0 } }; }
static ops all() { return { op{ fillall, { 0, 0 }, { 0, 0 }, 0 } }; }
static ops full() { op o{ several, { 0, 0 }, { 0, 0 }, 0 }; for (P p : grid_points(4, 4, 6, 4, -9, -7, 2)) o.sub.push_back({ point, p, p, 3 }); return { o }; }
RESET_BFS(mixed, 0, 64, D(5), D(6), clean() + all() + full() + points({ { 0, 0 }, { 4, 2 }, { -6, 8 }, { 4, -2 } }) + edges({ { 0, 0 }, { 8, 0 }, { -6, 8 }, { 20, -14 } }, false) + loop({ { -8, -8 }, { 8, -8 }, { 8, 8 }, { -8, 8 } }) + fills({ { 1, 1 }, { -20000, 9 } }, { 3 }))
RESET_BFS(small, 0, 9, D(5), D(6), clean() + all() + full() + points({ { 0, 0 }, { 4, 2 }, { -6, 8 }, { 4, -2 } }, { 0, 40 }) + edges({ { 0, 0 }, { 8, 0 }, { -6, 8 } }, true) + fills({ { 1, 1 } }, { 3 }))
RESET_BFS(points_only, 0, 16, D(6), D(7), clean() + points(grid_points(3, 3, 2, 2, -2, -2)))
RESET_BFS(hull, 0, 16, D(5), D(6), clean() + all() + edges({ { -32768, -32768 }, { 32767, -32768 }, { -32768, 32767 }, { 32767, 32767 }, { 2, 0 } }, false, false, { 0 }, rawedge) + fills({ { 9, 1 } }, { 8 }))

// complete meshes, then a reset and a history of every length
template<size_t N> static void large(u64 i)
{
    using M = ce::cdt<0, N>; static M m, f; JUNK(m, int(i * 37)); JUNK(f, int(~i * 37)); m.reset(); f.reset(); u64 r = i;
    auto rnd = [&](int k) { r = r * 6364136223846793005ull + 1442695040888963407ull; return int((r >> 33) % u64(k)); };
    for (size_t k = 0; k < N + 4; ++k) { if (k % 9 == 8) m.insert_edge(ce::vec2<int32_t>{ rnd(60000) - 30000, rnd(60000) - 30000 }, ce::vec2<int32_t>{ rnd(60000) - 30000, rnd(60000) - 30000 }, size_t(rnd(100000))); else m.insert_point(ce::vec2<int32_t>{ rnd(60000) - 30000, rnd(60000) - 30000 }, size_t(rnd(100000))); if (k % 64 == 63) m.fill(m.locate(rnd(60000) - 30000, rnd(60000) - 30000, 0), uint16_t(rnd(60000))); }
    m.reset(); same(m, f, "after reset");
    for (int k = 0; k < 40; ++k)
    {
        int a = rnd(200) - 100, b = rnd(200) - 100, c = rnd(200) - 100, d = rnd(200) - 100; char w[80]; snprintf(w, sizeof w, "operation %d after the reset of a full mesh", k); bool x, y;
        switch (rnd(4)) { case 0: x = m.insert_edge(ce::vec2<int32_t>{ a, b }, ce::vec2<int32_t>{ c, d }, size_t(k)); y = f.insert_edge(ce::vec2<int32_t>{ a, b }, ce::vec2<int32_t>{ c, d }, size_t(k)); break; case 1: m.fill(m.locate(a, b, 0), uint16_t(k)); f.fill(f.locate(a, b, 0), uint16_t(k)); x = y = true; break; default: x = m.insert_point(ce::vec2<int32_t>{ a, b }, 0); y = f.insert_point(ce::vec2<int32_t>{ a, b }, 0); }
        MC_CHECK(x == y, "%s returns %d, on a fresh mesh %d", w, x, y); same(m, f, w); step();
    }
    nontrivial();
}
MC_SWEEP(full_9, 64, 1024, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<9>(i); }
MC_SWEEP(full_64, 64, 1024, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<64>(i); }
MC_SWEEP(full_8192, 8, 64, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<8192>(i); }
