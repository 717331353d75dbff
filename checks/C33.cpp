//@ level: exploration
//@ technique: exhaustive enumeration of all sets (and multisets) of points of small coordinate grids with all boxes of those grids, on the real z_query, against a linear scan of the stored keys; exact-size buffers under AddressSanitizer
//@ note: the answer of z_query depends on where the box splits the curve and which stored keys fall in which part; the grids are placed so that splits happen at every level: inside a 256x256 cell, between neighbouring cells, across the sign change, and over the whole coordinate range (deep split trees that need the whole span stack).
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address -DSMALL
//@ rule: at least one stored key inside the box
//@ bounds: 17 pairs of coordinate sets: all subsets of a 4x4 grid with all 100 boxes (thorough: 5x5 with all 225 boxes for 4 of them); all multisets with up to 2 copies of a 3x3 grid with all boxes over the grid coordinates; all subsets of 3x3 grids with all 2025 boxes over the coordinates and both neighbours; dense grids of 1024 points at 8 scales and a staircase of 900 boundary points with all boxes over 26 boundary coordinates per axis; grids of 65536, 66049 and 136900 keys at 3 scales with 784 boxes each
//@ assume: the keys of the box are those of its lowest and highest corner
#include "mc.h"
#include "ce/ce.h"
#include "ce/zorder.h"
#include <memory>
#include <vector>
#include <algorithm>
#include <climits>
using namespace mc;
using K = ce::uint64_t;
#ifdef SMALL
static u64 const stride = 61;
#else
static u64 const stride = 1;
#endif
static u64 cases, hits;
struct box { int x0, y0, x1, y1; };
static K* raw(size_t n) { return new K[n]; }
// one query; v sorted
static void query(K const* data, size_t n, box b)
{
    K lo = ce::z_encode(b.x0, b.y0), hi = ce::z_encode(b.x1, b.y1);
    K const X = 0x5555555555555555, Y = X << 1, canary = 0x0123456789abcdefull;
    std::unique_ptr<K[]> heap;
#ifdef SMALL
    heap.reset(raw(n)); K* out = heap.get();
#else
    static K big[140000]; K* out = big;
#endif
    size_t margin = stride > 1 ? 0 : 2;
    for (size_t i = 0; i < n + margin; ++i) out[i] = canary;
    size_t m = ce::z_query(out, lo, hi, n, data);
    MC_CHECK(m <= n, "z_query of box (%d,%d)-(%d,%d) returns %zu of %zu stored keys", b.x0, b.y0, b.x1, b.y1, m, n);
    for (size_t i = m; i < n + margin; ++i) MC_CHECK(out[i] == canary, "z_query of box (%d,%d)-(%d,%d) on %zu keys returns %zu but wrote element %zu", b.x0, b.y0, b.x1, b.y1, n, m, i);
    size_t j = 0; u64 in = 0;
    for (size_t i = 0; i < n; ++i)
    {
        K z = data[i];
        if (j < m && out[j] == z) { ++j; MC_CHECK(z >= lo && (z <= hi || z - hi <= 65535), "z_query of box (%d,%d)-(%d,%d) reports key %016lx outside [%016lx, %016lx + 65535]", b.x0, b.y0, b.x1, b.y1, (long)z, (long)lo, (long)hi); in += 1; continue; }
        bool w = (z & X) >= (lo & X) && (z & X) <= (hi & X) && (z & Y) >= (lo & Y) && (z & Y) <= (hi & Y);
        MC_CHECK(!w, "z_query of box (%d,%d)-(%d,%d) on %zu keys misses key %zu (%016lx) which lies inside", b.x0, b.y0, b.x1, b.y1, n, i, (long)z);
    }
    MC_CHECK(j == m, "z_query of box (%d,%d)-(%d,%d) on %zu keys: element %zu of the result is not an ascending list of stored keys", b.x0, b.y0, b.x1, b.y1, n, j);
    ++cases; hits += in > 0;
}
static void with(std::vector<K> v, void (*f)(K const*, size_t, void*), void* p)
{
    std::sort(v.begin(), v.end());
    std::unique_ptr<K[]> d(raw(v.size())); std::copy(v.begin(), v.end(), d.get());
    f(d.get(), v.size(), p);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(d[i] == v[i], "z_query changed the stored keys");
}
template<class F> static void stored(std::vector<K> const& v, F f) { with(v, [](K const* d, size_t n, void* p) { (*(F*)p)(d, n); }, &f); }
template<class F> static void each(u64 lo, u64 hi, F f, u64 st = stride)
{
    cases = hits = 0; u64 k = 0;
    for (u64 i = lo; i < hi; ++i) { if (st > 1 && (i * 0x9e3779b97f4a7c15ull >> 32) % st) continue; if ((k++ & 15) == 0 || st > 1) at(i); f(i); }
    step(cases); nontrivial(hits);
}
static int const L = INT_MIN, H = INT_MAX;
struct cs { int x[5], y[5]; };
static cs const sets[] = {
    { { 0, 256, 512, 768, 1024 }, { 0, 256, 512, 768, 1024 } },
    { { -256, -1, 0, 255, 256 }, { -256, -1, 0, 255, 256 } },
    { { L, L + 256, -256, H, 0 }, { L, L + 256, H - 300, H, 1 } },
    { { 0, 1, 2, 3, 4 }, { 0, 1, 2, 3, 4 } },
    { { L, -1, 0, H, 256 }, { L, -1, 0, H, -256 } },
    { { 100, 356, 612, 65636, 65536 }, { 255, 256, 511, 512, 65535 } },
    { { H - 3 * 256, H - 512, H - 256, H, L }, { L, L + 256, L + 512, L + 768, H } },
    { { -1000, -500, 0, 500, 1000 }, { 0, 1 << 16, 1 << 24, 1 << 30, H } },
    { { 128, 384, 640, 896, 1152 }, { -640, -384, -128, 128, 384 } },
    { { L + 1, -65536, 65535, H - 1, 0 }, { -257, -256, 255, 256, 0 } },
    { { 1 << 20, (1 << 20) + 255, (1 << 20) + 256, (1 << 21) - 1, 1 << 21 }, { -(1 << 20), -(1 << 19), -256, 0, 256 } },
    { { 0, 255, 256, 300, 511 }, { 7, 8, 511, 513, 1000 } },
    { { L, L + 255, L + 256, L + 511, L + 512 }, { H - 512, H - 511, H - 256, H - 255, H } },
    { { H - 300, H - 1, H - 200, H, H - 256 }, { H - 1, H - 255, H - 256, H, H - 3 } },
    { { L, L + 1, L + 255, L + 256, L + 3 }, { L + 1, L, L + 255, L + 256, L + 300 } },
    { { H - 2, H - 1, H, H - 255, 0 }, { H, H - 2, H - 254, H - 1, 5 } },
    { { 3, 515, 1027, 2051, 4099 }, { 1000000, 1000256, 1000512, 1001024, 1002048 } },
};
static u64 const nsets = sizeof sets / sizeof *sets;
static void sorted(int const* p, int n, int* o) { std::copy(p, p + n, o); std::sort(o, o + n); }
template<class F> static void boxes(int const* x, int nx, int const* y, int ny, F f) { for (int a = 0; a < nx; ++a) for (int b = a; b < nx; ++b) for (int c = 0; c < ny; ++c) for (int d = c; d < ny; ++d) f(box{ x[a], y[c], x[b], y[d] }); }
static void subsets(u64 i, int n, cs const& s)
{
    int x[5], y[5]; sorted(s.x, n, x); sorted(s.y, n, y);
    std::vector<K> v; for (int k = 0; k < n * n; ++k) if (i >> k & 1) v.push_back(ce::z_encode(x[k % n], y[k / n]));
    stored(v, [&](K const* d, size_t m) { boxes(x, n, y, n, [&](box b) { query(d, m, b); }); });
}
MC_SWEEP(grid4, nsets << 16, nsets << 16, 1 << 12) { each(lo, hi, [](u64 i) { subsets(i & 65535, 4, sets[i >> 16]); }); }
MC_SWEEP(grid5, 0, u64(4) << 25, 1 << 14) { each(lo, hi, [](u64 i) { static int const w[] = { 0, 2, 1, 12 }; subsets(i & 0x1ffffff, 5, sets[w[i >> 25]]); }); }
MC_SWEEP(multi3, nsets * 19683, nsets * 19683, 1 << 10)
{
    each(lo, hi, [](u64 i) { cs const& s = sets[i / 19683]; i %= 19683; int x[3], y[3]; sorted(s.x, 3, x); sorted(s.y, 3, y);
        std::vector<K> v; for (int k = 0; k < 9; ++k, i /= 3) for (u64 c = 0; c < i % 3; ++c) v.push_back(ce::z_encode(x[k % 3], y[k / 3]));
        stored(v, [&](K const* d, size_t m) { boxes(x, 3, y, 3, [&](box b) { query(d, m, b); }); }); });
}
static int around(int const* p, int* o) { int n = 0; for (int k = 0; k < 3; ++k) for (int d = -1; d <= 1; ++d) { if ((p[k] == L && d < 0) || (p[k] == H && d > 0)) continue; o[n++] = p[k] + d; } std::sort(o, o + n); return int(std::unique(o, o + n) - o); }
MC_SWEEP(near3, nsets * 512, nsets * 512, 16)
{
    each(lo, hi, [](u64 i) { cs const& s = sets[i / 512]; int x[3], y[3], bx[9], by[9]; sorted(s.x, 3, x); sorted(s.y, 3, y); int nx = around(x, bx), ny = around(y, by);
        std::vector<K> v; for (int k = 0; k < 9; ++k) if (i >> k & 1) v.push_back(ce::z_encode(x[k % 3], y[k / 3]));
        stored(v, [&](K const* d, size_t m) { boxes(bx, nx, by, ny, [&](box b) { query(d, m, b); }); }); }, stride > 1 ? 7 : 1);
}
// dense data: every point of a 32x32 grid, all boxes over 26 coordinates per axis (grid lines, their neighbours, extremes)
static int edge(int k, int s) { static int const g[] = { 0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 31 }; if (k == 0) return L; if (k == 1) return L + 256; if (k == 24) return H; if (k == 25) return H - 256; k -= 2; return int(u32(g[k / 2] - 16) * u32(s)) + (k % 2 ? (s < 256 ? 1 : 255) : 0); }
MC_SWEEP(dense, 8 * 351, 8 * 351, 1)
{
    static int const scale[] = { 1, 3, 64, 255, 256, 1000, 65536, 1 << 26 };
    each(lo, hi, [](u64 i) { int s = scale[i / 351]; int c[26]; for (int k = 0; k < 26; ++k) c[k] = edge(k, s); std::sort(c, c + 26);
        std::vector<K> v; for (int y = -16; y < 16; ++y) for (int x = -16; x < 16; ++x) v.push_back(ce::z_encode(int(u32(x) * u32(s)), int(u32(y) * u32(s))));
        int a = 0, b = 0; u64 r = i % 351; for (a = 0; r >= u64(26 - a); ++a) r -= u64(26 - a); b = a + int(r);
        stored(v, [&](K const* d, size_t m) { for (int e = 0; e < 26; ++e) for (int f = e; f < 26; ++f) query(d, m, box{ c[a], c[e], c[b], c[f] }); }); }, stride > 1 ? 17 : 1);
}
// points on all combinations of 30 boundary coordinates; the deepest split trees
static int bound(int k) { static int c[30]; if (!c[0]) { int n = 0; for (int b : { 8, 9, 12, 16, 23, 24, 30 }) { c[n++] = 1 << b; c[n++] = -(1 << b); c[n++] = L + (1 << b); c[n++] = H - (1 << b); } c[n++] = L; c[n++] = H; std::sort(c, c + 30); } return c[k]; }
MC_SWEEP(stairs, 465, 465, 1)
{
    each(lo, hi, [](u64 i) { std::vector<K> v; for (int y = 0; y < 30; ++y) for (int x = 0; x < 30; ++x) v.push_back(ce::z_encode(bound(x), bound(y)));
        int a = 0; u64 r = i; for (; r >= u64(30 - a); ++a) r -= u64(30 - a); int b = a + int(r);
        stored(v, [&](K const* d, size_t m) { for (int e = 0; e < 30; ++e) for (int f = e; f < 30; ++f) query(d, m, box{ bound(a), bound(e), bound(b), bound(f) }); }); }, stride > 1 ? 5 : 1);
}
// more than 2^16 and 2^17 stored keys
MC_SWEEP(large, 3 * 3 * 28, 3 * 3 * 28, 1)
{
    static int const ns[] = { 256, 257, 370 }; static int const scale[] = { 1, 257, 1 << 22 };
    each(lo, hi, [](u64 i) { int w = ns[i / 84], s = scale[i / 28 % 3]; u64 r = i % 28; int a = 0; for (; r >= u64(7 - a); ++a) r -= u64(7 - a); int b = a + int(r);
        std::vector<K> v; for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) v.push_back(ce::z_encode(int(u32(x - w / 2) * u32(s)), int(u32(y - w / 2) * u32(s))));
        long const e = w / 2; long const at7[] = { -e, -e + 1, -1, 0, 3, e - 2, e };
        auto c = [&](long k) { return int(std::max(-2147483648l, std::min(2147483647l, k * s))); };
        stored(v, [&](K const* d, size_t m) { for (int f = 0; f < 7; ++f) for (int g = f; g < 7; ++g) query(d, m, box{ c(at7[a]), c(at7[f]), c(at7[b]), c(at7[g]) }); }); }, stride > 1 ? 9 : 1);
}
