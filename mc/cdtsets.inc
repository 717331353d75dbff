// cdtsets.inc - sets of operations whose histories C34, C35 and C41 explore
#ifdef SMALL
#define D(X) ((X) > 2 ? (X) / 2 + 1 : (X))
#else
#define D(X) (X)
#endif
using namespace cdtops;
static std::vector<P> const far9() { return { { -30000, -30000 }, { 32766, -32766 }, { -32766, 32766 }, { 32766, 32766 }, { -32766, -2 }, { 2, 32766 }, { 32766, 0 }, { 0, -32766 }, { 100, 98 } }; }
static std::vector<P> const rim() { return { { -32768, -32768 }, { -32768, 0 }, { 0, -32768 }, { 32767, 5 }, { 32768, 4 }, { -32770, 2 }, { 32766, 32766 }, { -32767, -32766 }, { 2147483647, 0 }, { -2147483647 - 1, -2147483647 - 1 }, { 0, 0 } }; }
static std::vector<P> const rawrim() { return { { -32768, -32768 }, { 32767, -32768 }, { -32768, 32767 }, { 32767, 32767 }, { 0, -32768 }, { 32767, 1 }, { -5, 32767 }, { -32768, 7 }, { 40000, 40000 }, { 1, 1 }, { 3, -32767 }, { 32766, 32766 } }; }
CDT_BFS(order_3x3, 0, 64, D(9), D(9), points(grid_points(3, 3, 2, 2, -2, -2)))
CDT_BFS(hints_2x3, 0, 64, D(6), D(6), points(grid_points(2, 3, 2, 2, 0, -2), { 0, 25, 31, 47, ~0u }))
CDT_BFS(order_4x4, 0, 64, D(5), D(6), points(grid_points(4, 4, 2, 2, -2, -4)))
CDT_BFS(edges_3x3, 0, 64, D(3), D(3), points(grid_points(3, 3, 2, 2, -2, -2)) + edges(grid_points(3, 3, 2, 2, -2, -2), true, true))
CDT_BFS(edges_2x3, 0, 64, D(4), D(5), points(grid_points(2, 3, 2, 2, 0, -2)) + edges(grid_points(2, 3, 2, 2, 0, -2), false))
CDT_BFS(edges_deep, 0, 64, D(0), D(4), points(grid_points(3, 3, 2, 2, -2, -2)) + edges(grid_points(3, 3, 2, 2, -2, -2), false))
CDT_BFS(edges_wide, 0, 64, D(3), D(3), points(std::vector<P>{ { 0, 0 } }) + edges(grid_points(3, 3, 14, 10, -16, -8, 4), true))
CDT_BFS(edges_far, 0, 64, D(3), D(3), points(far9()) + edges(far9(), false))
CDT_BFS(edges_odd, 0, 64, D(3), D(3), points(grid_points(3, 2, 3, 5, -3, -2), { 0 }, rawpoint) + edges(grid_points(3, 2, 3, 5, -3, -2), true, false, { 0 }, rawedge))
CDT_BFS(rim_user, 0, 64, D(4), D(5), points(rim(), { 0, 29 }))
CDT_BFS(rim_edges, 0, 64, D(2), D(3), edges(rim(), true, true))
CDT_BFS(rim_raw, 0, 64, D(4), D(5), points(rawrim(), { 0 }, rawpoint))
CDT_BFS(rim_raw_edges, 0, 64, D(2), D(2), edges(rawrim(), true, true, { 0 }, rawedge))
CDT_BFS(scaled_1, 1, 64, D(5), D(6), points(grid_points(4, 3, 3, 3, -5, -4), { 0 }))
CDT_BFS(scaled_4, 4, 64, D(5), D(6), points(grid_points(4, 3, 17, 31, -32, -33), { 0 }))
CDT_BFS(scaled_4_edges, 4, 64, D(3), D(3), edges(grid_points(3, 3, 48, 31, -49, -33), false))
CDT_BFS(scaled_8_rim, 8, 64, D(4), D(5), points({ { -32768 * 256, -32768 * 256 }, { -32768 * 256, -1 }, { -1, -1 }, { 0, 0 }, { 511, 512 }, { 32767 * 256 - 1, 0 }, { 32767 * 256, 32767 * 256 }, { -32767 * 256, -32766 * 256 }, { 1 << 30, -(1 << 30) } }))
#define CAP(N) CDT_BFS(capacity_##N, 0, N, D(6), D(7), points(grid_points(3, 2, 2, 2, 0, 0), { 0, ~0u }) + edges(grid_points(2, 2, 2, 2, 0, 0), true))
CAP(4) CAP(5) CAP(6) CAP(7) CAP(8)
#undef CAP
CDT_BFS(capacity_8_cross, 0, 8, D(3), D(3), edges(grid_points(3, 3, 14, 10, -16, -8, 4), false))

// large sets of points in many orders: the whole capacity
template<size_t N> static void large(u64 i)
{
    using T = tri<0, N>; static typename T::M m; m.reset(); u64 fam = i % 5, par = i / 5; int k = 1; while (k * k < int(N)) ++k; u64 tot = u64(k) * u64(k);
    u64 a = 1 + 2 * (par % 64), b = par / 64 * 7; while ([&] { u64 x = a, y = tot; while (y) { u64 t = x % y; x = y; y = t; } return x != 1; }()) ++a;
    std::vector<P> in;
    for (u64 j = 0; j < tot; ++j)
    {
        u64 z = (j * a + b) % tot; int x = int(z % u64(k)), y = int(z / u64(k)); P p;
        switch (fam)
        {
        case 0: p = { x * 2 - k, y * 2 - k }; break;
        case 1: p = { x * 2 - 30000, x * x % 60000 / 2 * 2 + y * 2 - 30000 }; break;              // parabolas
        case 2: p = { int(z) * 2 - int(tot), 6 }; if (z % 97 == 0) p.y = -6; break;                // one line
        case 3: { i64 u = (x * 2 - k), v = (y * 2 - k), d = u * u + v * v + 1; p = { int(u * 60000 / d) / 2 * 2, int(v * 60000 / d) / 2 * 2 }; if (z == 0) p = { 0, 0 }; break; }   // inverted grid
        default: p = { x * (60000 / k) / 2 * 2 - 30000, (y * (60000 / k) + x) / 2 * 2 - 30000 }; break;
        }
        P g = T::G::snapped(p); bool had = std::binary_search(in.begin(), in.end(), g), room = in.size() + 4 < T::limit;
        bool r = m.insert_point(ce::vec2<int32_t>{ p.x, p.y }, size_t(j * 12345 % 70000));
        MC_CHECK(r == (T::G::interior(g) && (had || room)), "point %llu of family %llu, order %llu: insert_point(%d,%d) returned %d, had %d room %d", j, fam, par, p.x, p.y, r, had, room);
        if (r && !had) in.insert(std::lower_bound(in.begin(), in.end(), g), g);
    }
    snap s = take(m); char w[80]; snprintf(w, sizeof w, "family %llu, order %llu with %zu points", fam, par, in.size()); check_large(m, s, w);
    for (P p : in) MC_CHECK(s.vertex(p), "%s: (%d,%d) is missing", w, p.x, p.y);
    MC_CHECK(s.v.size() == in.size() + 4, "%s: %zu vertices", w, s.v.size());
    step(tot); nontrivial(); outcome(s.hash());
}
#ifdef SMALL
MC_SWEEP(large_100, 40, 400, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<100>(i); }
#else
MC_SWEEP(large_100, 5 * 512, 5 * 64 * 64, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<100>(i); }
MC_SWEEP(large_1000, 100, 1000, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<1000>(i); }
#endif
MC_SWEEP(large_8192, 5, 40, 1) { for (u64 i = lo; i < hi; ++i) at(i), large<8192>(i); }
