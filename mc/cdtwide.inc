// cdtwide.inc - constraints across meshes of many points, for C34, C35 and C36: each constraint crosses up to all of the mesh
// one instance: a family of points, a size, an order and a list of constraints, the check of one operation after each of them
template<size_t N> static void wide_mesh(u64 fam, int n, u64 par, int constraints)
{
    using namespace cdtops; using T = tri<0, N>; static typename T::context c; memset((void*)&c.m, 0x5a, sizeof c.m); c.m.reset(); c.fresh = false;
    i64 step_of = i64(2 * (par % 32) + 1) * 7; while (std::gcd(step_of, i64(n)) != 1) ++step_of;
    std::vector<P> pts; int k = 1; while (k * k < n) ++k;
    for (int j = 0; j < n; ++j)
    {
        i64 z = (i64(j) * step_of + i64(par)) % n; P p;
        switch (fam)
        {
        case 0: p = { int(z / 2 * (60000 / (n / 2 + 1))) - 30000, z % 2 ? 400 : -400 }; break;                              // two rows
        case 1: p = { int(z / 2 * (60000 / (n / 2 + 1))) - 30000, (z % 2 ? 1 : -1) * int(200 + z * z % 97 * 20) }; break;   // two rough rows
        case 2: p = { int(z % k) * (56000 / k) + int(z / k) * 6 - 29000, int(z / k) * (56000 / k) + int(z % k) * 4 - 29000 }; break; // a slanted grid
        case 3: { double a = double(z) * 6.283185307179586 / n; p = { int(20000 * std::cos(a)), int(20000 * std::sin(a)) }; break; }  // a circle
        case 4: { double a = double(z) * 2.399963, r = 30000 * std::sqrt((double(z) + 1) / (n + 1)); p = { int(r * std::cos(a)), int(r * std::sin(a)) }; break; } // a spiral
        default: p = { int(z) * 8 - 4 * n, int(z * z % 30011) - 15000 }; break;                                              // parabolas
        }
        pts.push_back(T::G::snapped(p)); c.m.insert_point(ce::vec2<int32_t>{ p.x, p.y }, size_t(j * 7919 % 65536));
    }
    c.after = take(c.m); step(u64(n));
    auto edge_op = [&](P a, P b, unsigned hint)
    {
        std::swap(c.before, c.after); c.last = op{ edge, a, b, hint };
        trace("%s", T::text(c.last)); c.result = T::apply(c.m, c.last); c.after = take(c.m); step(); trace("-> %d, %zu vertices", c.result, c.after.v.size());
        check<T>(c);
        hasher h; h.u(u64(c.result)); h.u(c.after.v.size() - c.before.v.size()); outcome(h);
    };
    u64 m = u64(n);
    for (int q = 0; q < constraints; ++q)
    {
        P a, b; int e = 120 * q;
        switch (par % 4)
        {
        case 0: a = { -32000, -32000 + 640 * q }; b = { 32000, -31000 + 700 * q }; if (q % 2) std::swap(a, b); break;                   // long segments that don't cross
        case 1: a = pts[0]; b = pts[(u64(q) * 7919 + 1) % m]; break;                                                                    // a star
        case 2: a = pts[(u64(q) * 7919 + par) % m]; b = pts[(u64(q) * 104729 + m / 2 + par * 13) % m]; break;                            // between points anywhere
        default: if (q % 2) a = { -31000, e - 2000 }, b = { 31000, 2000 - e }; else a = { e - 2000, -31000 }, b = { 2000 - e, 31000 }; break; // two bundles across each other
        }
        edge_op(a, b, unsigned(q * 977));
    }
    state(c.after.hash()); nontrivial();
}
#ifdef SMALL
MC_SWEEP(wide_100, 6 * 4, 6 * 16, 1) { for (u64 i = lo; i < hi; ++i) at(i), wide_mesh<8192>(i % 6, 100, i / 6, 6); }
#else
MC_SWEEP(wide_30, 6 * 32, 6 * 64, 1) { for (u64 i = lo; i < hi; ++i) at(i), wide_mesh<8192>(i % 6, 30, i / 6, 12); }
MC_SWEEP(wide_300, 6 * 16, 6 * 64, 1) { for (u64 i = lo; i < hi; ++i) at(i), wide_mesh<8192>(i % 6, 300, i / 6, 12); }
MC_SWEEP(wide_3000, 6 * 4, 6 * 8, 1) { for (u64 i = lo; i < hi; ++i) at(i), wide_mesh<8192>(i % 6, 3000, i / 6, 6); }
#endif
