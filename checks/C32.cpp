//@ level: exploration
//@ technique: exhaustive enumeration of every 32 bit argument of z_expand, of coordinate pairs and key triples in complete boxes and boundary windows, and of all sorted key lists up to a length for z_lower_bound, against bit by bit definitions
//@ note: z_encode is decided through z_expand (all 2^32 arguments), all pairs of a 2^11 (2^14) box and pairs of boundary coordinates; its monotony and injectivity follow from the bit definition and are also checked directly on neighbours.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address -DSMALL
//@ rule: more than one bit set, or more than one key
//@ bounds: z_expand: all 2^32; z_encode: all pairs of a 2048^2 (16384^2) box around 5 centres, all pairs of 204 boundary coordinates with both neighbours; z_inside: all boxes and points of an 8x8 grid at 6 scales and all triples of 40 boundary keys; z_lower_bound: all sorted lists of up to 9 (11) keys out of 4 values, all lengths to 300 with keys around every element
//@ assume: none
#include "mc.h"
#include "ce/ce.h"
#include "ce/zorder.h"
#include <memory>
#include <vector>
#include <algorithm>
using namespace mc;
#ifdef SMALL
static u64 const stride = 1021;
#else
static u64 const stride = 1;
#endif
using K = ce::uint64_t;
template<class F> static void each(u64 lo, u64 hi, F f, u64 st = stride) { u64 k = 0; for (u64 i = lo; i < hi; i += st) { if ((k++ & 255) == 0 || st > 1) at(i); f(i); } nontrivial(k); step(k); }
static u64 spread[65536];
static bool ready = [] { for (u32 i = 0; i < 65536; ++i) { u64 r = 0; for (int b = 0; b < 16; ++b) if (i >> b & 1) r |= u64(1) << 2 * b; spread[i] = r; } return true; }();
static u64 ref(u32 n) { return spread[n & 65535] | spread[n >> 16] << 32; }
static u64 key(int x, int y) { return ref(u32(x) + 0x80000000u) | ref(u32(y) + 0x80000000u) << 1; }
MC_SWEEP(expand, u64(1) << 32, u64(1) << 32, 1 << 22) { each(lo, hi, [](u64 i) { K e = ce::z_expand(u32(i)); MC_CHECK(e == ref(u32(i)), "z_expand(%08llx) is %016lx, expected %016llx", i, (long)e, ref(u32(i))); }); }
static void encode(int x, int y)
{
    K z = ce::z_encode(x, y);
    MC_CHECK(z == key(x, y), "z_encode(%d, %d) is %016lx, expected %016llx", x, y, (long)z, key(x, y));
    if (x < 0x7fffffff) MC_CHECK(ce::z_encode(x + 1, y) > z, "the key of (%d, %d) does not grow with x", x, y);
    if (y < 0x7fffffff) MC_CHECK(ce::z_encode(x, y + 1) > z, "the key of (%d, %d) does not grow with y", x, y);
}
MC_SWEEP(encode_box, 2048, 16384, 4)
{
    each(lo, hi, [](u64 i) { int n = thorough ? 16384 : 2048; u32 const c[] = { 0, 0x7fffffffu - u32(n) + 1, 0x80000000u, 0x40000000u - 1000, 0xbffffe00u };
        for (u32 q : c) for (int y = 0; y < n; ++y) encode(int(q + u32(i) - (q ? 0 : u32(n / 2))), int(q + u32(y) - (q ? 0 : u32(n / 2)))); step(u64(n)); }, stride > 1 ? 97 : 1);
}
static int coord(u64 k) { u64 b = k / 6; u32 v = (b < 32 ? u32(1) << b : 0) + u32(k % 3) - 1; if (k / 3 % 2) v = ~v; return int(v); }
MC_SWEEP(encode_edges, 204 * 204, 204 * 204, 64) { each(lo, hi, [](u64 i) { encode(coord(i % 204), coord(i / 204)); }, 1); }
// box test
static void inside(int x0, int y0, int x1, int y1, int x, int y)
{
    bool g = ce::z_inside(ce::z_encode(x0, y0), ce::z_encode(x1, y1), ce::z_encode(x, y)), w = x0 <= x && x <= x1 && y0 <= y && y <= y1;
    MC_CHECK(g == w, "z_inside of (%d,%d) in the box (%d,%d) to (%d,%d) is %d", x, y, x0, y0, x1, y1, g);
}
MC_SWEEP(inside_grid, 64 * 64 * 6, 64 * 64 * 6, 16)
{
    static int const scale[] = { 1, 3, 256, 65535, 1 << 24, 1 << 29 };
    each(lo, hi, [](u64 i) { u32 s = u32(scale[i / 4096]); auto c = [&](u64 k) { return int(u32(k - 4) * s - (s == 3 ? 1 : 0)); };
        for (u64 p = 0; p < 64; ++p) inside(c(i % 8), c(i / 8 % 8), c(i / 64 % 8), c(i / 512 % 8), c(p % 8), c(p / 8)); }, 1);
}
MC_SWEEP(inside_keys, 40 * 40, 40 * 40, 4)
{
    auto k = [](u64 i) { u64 b = i / 2; u64 v = b < 17 ? (u64(1) << b * 4 % 64) - 1 + (i % 2) * 2 : (u64(0x5555555555555555) << b % 3) ^ i; return K(v * (i % 3 ? 1 : 0x10001)); };
    each(lo, hi, [&](u64 i) {
        for (u64 j = 0; j < 40; ++j)
        {
            K a = k(i % 40), b = k(i / 40), z = k(j), X = 0x5555555555555555, Y = X << 1;
            bool w = (z & X) >= (a & X) && (z & X) <= (b & X) && (z & Y) >= (a & Y) && (z & Y) <= (b & Y);
            MC_CHECK(ce::z_inside(a, b, z) == w, "z_inside of key %016lx from %016lx to %016lx is %d", (long)z, (long)a, (long)b, !w);
        } }, 1);
}
// lower bound; the list is allocated exactly
static void bound(std::vector<K> const& v, K q)
{
    std::unique_ptr<K[]> m(new K[v.size()]); std::copy(v.begin(), v.end(), m.get());
    K const* r = ce::z_lower_bound(m.get(), m.get() + v.size(), q); size_t w = 0; while (w < v.size() && v[w] < q) ++w;
    MC_CHECK(r == m.get() + w, "z_lower_bound in %zu keys returns position %ld, expected %zu", v.size(), long(r - m.get()), w);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(m[i] == v[i], "z_lower_bound changed the list");
}
MC_SWEEP(bounds_small, 715, 1365, 4)      // multisets of up to 9 (11) of 4 values
{
    static K const val[] = { 0, 5, 0x8000000000000000, ~K(0) };
    each(lo, hi, [](u64 i)
    {
        u64 r = i; std::vector<K> v; int n = thorough ? 11 : 9;
        for (int a = 0; a <= n; ++a) for (int b = 0; a + b <= n; ++b) for (int c = 0; a + b + c <= n; ++c) for (int d = 0; a + b + c + d <= n; ++d) if (r-- == 0) { for (int k = 0; k < a; ++k) v.push_back(val[0]); for (int k = 0; k < b; ++k) v.push_back(val[1]); for (int k = 0; k < c; ++k) v.push_back(val[2]); for (int k = 0; k < d; ++k) v.push_back(val[3]); a = b = c = d = 99; }
        for (K q : { K(0), K(1), K(4), K(5), K(6), K(0x7fffffffffffffff), K(0x8000000000000000), K(0x8000000000000001), ~K(0) - 1, ~K(0) }) bound(v, q);
    }, 1);
}
MC_SWEEP(bounds_long, 301, 3001, 1)
{
    each(lo, hi, [](u64 i) { std::vector<K> v; for (u64 k = 0; k < i; ++k) v.push_back(k * 3 + (k / 5 % 2 ? 0 : k % 5)); std::sort(v.begin(), v.end()); for (u64 k = 0; k < i; k += i > 400 ? 37 : 1) for (int d = -1; d <= 1; ++d) bound(v, v[k] + K(d)); bound(v, 0); bound(v, ~K(0)); }, 1);
}
