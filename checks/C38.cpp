//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over histories of constraints, points and fills, every fill compared with a flood fill of the mesh before it and every insertion with the labels of the regions before it
//@ note: Where a face lies before an insertion is decided exactly from its centroid. Large meshes whose regions have thousands of faces of many shapes (open areas, corridors, spirals, combs, many holes) drive the work list of the fill over its size.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: histories to depth 4 (5) of fills with two labels, points, single constraints and closed loops; large meshes of 6 shapes at 8, 8 and 2 (16) sizes up to 256, 2000 and 8192 points, every face of the smaller ones as the start
#include "cdtops.h"
using namespace mc;
using namespace cdtops;
static std::vector<int> regions(snap const& s)
{
    std::vector<int> r(s.f.size(), -1); int n = 0;
    for (size_t k = 0; k < s.f.size(); ++k)
    {
        if (r[k] >= 0) continue; std::vector<size_t> q{ k }; r[k] = n;
        for (size_t i = 0; i < q.size(); ++i) for (int e = 0; e < 3; ++e)
        {
            if (s.f[q[i]].c[e]) continue; half const* t = s.find(s.f[q[i]].p[(e + 2) % 3], s.f[q[i]].p[(e + 1) % 3]);
            if (t && r[size_t(t->f)] < 0) r[size_t(t->f)] = n, q.push_back(size_t(t->f));
        }
        ++n;
    }
    return r;
}
static void filled(snap const& b, snap const& a, size_t start, unsigned label, char const* w)
{
    MC_CHECK(a.f.size() == b.f.size(), "%s changed the number of faces", w);
    std::vector<int> r = regions(b); bool one = true; for (size_t k = 0; k < r.size(); ++k) if (r[k] == r[start] && b.f[k].data != b.f[start].data) one = false;
    unsigned old = b.f[start].data; size_t n = 0;
    for (size_t k = 0; k < r.size(); ++k)
    {
        auto& x = b.f[k]; auto& y = a.f[k];
        for (int i = 0; i < 3; ++i) MC_CHECK(x.p[i] == y.p[i] && x.e[i] == y.e[i] && x.c[i] == y.c[i], "%s changed the face %zu", w, k);
        if (r[k] != r[start]) MC_CHECK(x.data == y.data, "%s changed the label of a face of another region: (%d,%d) (%d,%d) (%d,%d)", w, x.p[0].x, x.p[0].y, x.p[1].x, x.p[1].y, x.p[2].x, x.p[2].y);
        else if (one) { MC_CHECK(y.data == label, "%s left the label %u on the face (%d,%d) (%d,%d) (%d,%d) of the region (label %u before)", w, y.data, x.p[0].x, x.p[0].y, x.p[1].x, x.p[1].y, x.p[2].x, x.p[2].y, old); n += x.data != label; }
        else MC_CHECK(y.data == label || y.data == x.data, "%s gave the label %u to a face", w, y.data);
    }
    MC_CHECK(a.f[start].data == label, "%s left the start face with the label %u", w, a.f[start].data);
    outcome(n * 4 + one);
}
// the face that contains the centroid of g
static int around(snap const& s, face const& g)
{
    i64 x = i64(g.p[0].x) + g.p[1].x + g.p[2].x, y = i64(g.p[0].y) + g.p[1].y + g.p[2].y;
    for (size_t k = 0; k < s.f.size(); ++k)
    {
        bool in = true;
        for (int i = 0; i < 3 && in; ++i) { P a = s.f[k].p[i], b = s.f[k].p[(i + 1) % 3]; in = i128(3) * (i64(b.x) - a.x) * (y - 3 * i64(a.y)) <= i128(3) * (i64(b.y) - a.y) * (x - 3 * i64(a.x)); }
        if (in) return int(k);
    }
    return -1;
}
static void kept(snap const& b, snap const& a, char const* w)
{
    std::vector<int> r = regions(b); int n = 0; for (int x : r) n = std::max(n, x + 1);
    std::vector<int> lab(size_t(n), -1); for (size_t k = 0; k < r.size(); ++k) { int& l = lab[size_t(r[k])]; int d = int(b.f[k].data); l = l == -1 || l == d ? d : -2; }
    for (auto& g : a.f)
    {
        int k = around(b, g); MC_CHECK(k >= 0, "%s: a face lies outside", w); int l = lab[size_t(r[size_t(k)])];
        if (l >= 0) MC_CHECK(int(g.data) == l, "%s: the face (%d,%d) (%d,%d) (%d,%d) has the label %u, it lies in a region labelled %d", w, g.p[0].x, g.p[0].y, g.p[1].x, g.p[1].y, g.p[2].x, g.p[2].y, g.data, l);
    }
}
template<class T> static void check(typename T::context& c)
{
    if (c.fresh) { for (auto& g : c.after.f) MC_CHECK(g.data == 0, "a face has the label %u after reset", g.data); return; }
    op const& o = c.last; char w[200]; snprintf(w, sizeof w, "%s", T::text(o));
    if (o.k == fill)
    {
        unsigned id = unsigned(c.m.locate(o.a.x, o.a.y, 0u)); size_t start = id / 4 - 6;
        MC_CHECK(id >= 24 && start < c.before.f.size(), "locate gives %u", id);
        filled(c.before, c.after, start, o.hint, w);
        // every node of the face stands for the face, nil for nothing
        static typename T::M m; 
        for (unsigned k = 0; k < 4; ++k) { m = c.m; m.fill(id / 4 * 4 + k, uint16_t(o.hint + 100)); snap s = take(m); filled(c.after, s, start, o.hint + 100, w); m.fill(k, 7); snap t = take(m); MC_CHECK(s == t, "fill(%u) changed the mesh", k); }
        return;
    }
    if (o.k == fillall) { std::vector<int> r = regions(c.before); for (size_t k = 0; k < r.size(); ++k) MC_CHECK(int(c.after.f[k].data) == r[k] + 1, "labelling every region: the face %zu of region %d has the label %u", k, r[k], c.after.f[k].data); return; }
    kept(c.before, c.after, w);
}
#ifdef SMALL
#define D(X) ((X) > 2 ? (X) / 2 + 1 : (X))
#else
#define D(X) (X)
#endif
static ops all() { return { op{ fillall, { 0, 0 }, { 0, 0 }, 0 } }; }
static std::vector<P> c5() { return { { -32768, -32768 }, { 32767, -32768 }, { -32768, 32767 }, { 32767, 32767 }, { 0, 0 }, { 5, -7 } }; }
CDT_BFS(loops, 0, 256, D(4), D(5), loop({ { -8, -8 }, { 8, -8 }, { 8, 8 }, { -8, 8 } }) + loop({ { -4, -4 }, { 4, -4 }, { 4, 4 }, { -4, 4 } }) + loop({ { -8, 0 }, { 0, -8 }, { 8, 0 }, { 0, 8 } }) + loop({ { 0, 0 }, { 20, 2 }, { 4, 16 } })
    + points(grid_points(3, 3, 4, 4, -4, -4)) + edges({ { -8, -8 }, { 8, 8 }, { -4, 4 }, { 12, 0 } }, false) + fills({ { 0, 1 }, { 6, 1 }, { 100, 100 } }, { 1, 2 }) + all())
CDT_BFS(diagonals, 0, 256, D(4), D(5), edges(c5(), false, false, { 0 }, rawedge) + points({ { 2, 2 }, { -4, -4 }, { 1000, -20000 } }) + fills({ { 6, 3 }, { -9, 5 } }, { 1, 2 }) + all())
CDT_BFS(grid_3x3, 0, 256, D(4), D(4), edges(grid_points(3, 3, 2, 2, -2, -2), false) + fills({ { 0, 1 }, { -1, 1 } }, { 1 }) + all())
CDT_BFS(wide, 0, 256, D(3), D(4), loop({ { -16, -8 }, { 20, -8 }, { 20, 12 }, { -16, 12 } }) + edges(grid_points(3, 3, 14, 10, -16, -8, 4), false) + points({ { 2, 2 }, { 6, -4 } }) + all())
CDT_BFS(scaled, 4, 256, D(3), D(4), loop({ { -100, -100 }, { 100, -60 }, { 40, 130 } }) + edges(grid_points(3, 2, 48, 31, -49, -33), true) + points({ { 0, 0 }, { 33, 33 } }) + fills({ { 0, 0 }, { -9, 5 } }, { 1, 2 }) + all())

template<size_t N> static void large(u64 i, bool everyface)
{
    using T = tri<0, N>; static typename T::M m; m.reset(); u64 shape = i % 6, size = i / 6; int k = 1; while (k * k < int(N) / 2) ++k; k -= int(size) % 8 + 1; int h = int(size) / 8; ops l; auto at = [&](int x, int y) { return P{ (x - k / 2) * 6 + h * 2, (y - k / 2) * 6 - h * 2 }; };
    l = l + loop({ at(0, 0), at(k - 1, 0), at(k - 1, k - 1), at(0, k - 1) });
    if (shape == 1) for (int x = 2; x + 2 < k; x += 2) l = l + path({ at(x, x % 4 ? 0 : 2), at(x, x % 4 ? k - 3 : k - 1) });                 // a snake
    if (shape == 2) for (int y = 0; y + 3 < k; y += 4) for (int x = 0; x + 3 < k; x += 4) l = l + loop({ at(x + 1, y + 1), at(x + 2, y + 1), at(x + 2, y + 2), at(x + 1, y + 2) });   // holes
    if (shape == 3) for (int x = 2; x + 2 < k; x += 3) l = l + path({ at(x, 0), at(x, k - 3) });                                             // a comb
    if (shape == 4) { int x = 2; std::vector<P> p; for (; x < k / 2 - 1; x += 2) { p.push_back(at(x, k - 1 - x)); p.push_back(at(k - 1 - x, k - 1 - x)); p.push_back(at(k - 1 - x, x)); p.push_back(at(x + 2, x)); } if (p.size() > 1) l = l + path(p); }   // a spiral
    for (op const& o : l) T::apply(m, o);
    for (int y = 0; y < k; ++y) for (int x = 0; x < k; ++x) { P p = at(x, y); if (shape == 5) p.x += y * 2, p.y += x * x % 5 * 2; m.insert_point(ce::vec2<int32_t>{ p.x, p.y }, size_t(x)); }
    snap b = take(m); char w[80]; snprintf(w, sizeof w, "shape %llu, size %llu, %zu faces", shape, size, b.f.size());
    if (b.v.size() + 1 > T::limit) MC_CHECK(0, "%s: the pattern does not fit", w);
    unsigned label = 1;
    for (size_t f = 0; f < b.f.size(); f += everyface ? 1 : b.f.size() / 7 + 1)
    {
        m.fill(ce::uint(4 * (f + 6) + f % 4), uint16_t(++label)); snap a = take(m); filled(b, a, f, label, w); step(); b = a;
    }
    nontrivial();
    // after everything is labelled more points go into every region
    T::label(m); b = take(m); for (int z = 0; z < 12; ++z) m.insert_point(ce::vec2<int32_t>{ z * 12 - k, z * 6 }, size_t(z)); m.insert_edge(ce::vec2<int32_t>{ -30000, -30000 }, ce::vec2<int32_t>{ -30000, 30000 }, 0); snap a = take(m); kept(b, a, w);
}
MC_SWEEP(large_256, 48, 6 * 16, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<256>(i, true); }
MC_SWEEP(large_2000, 48, 6 * 16, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<2000>(i, false); }
MC_SWEEP(large_8192, 12, 6 * 16, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<8192>(i, false); }
