//@ level: exploration
//@ technique: exhaustive enumeration of angles, radii and vectors (all 2^32 angles in the thorough tier, complete boxes of vectors, all windows around octant boundaries) through the real cordic, judged in double precision whose error is far below the tolerance
//@ note: Rounding, iteration and quadrant mistakes show as errors above the tolerance (half a unit plus the 30 bit resolution of the radius); equality of the single result forms with the vector forms is exact.
//@ cxx: -O2
//@ config plain:
//@ config ubsan: -O1 -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=shift -DSMALL
//@ rule: the radius is not zero
//@ bounds: 2^25 (all 2^32) angles for 6 radii, every radius 0..2^16 (2^20) at 512 angles, +-512 around every multiple of 2^24 for 62 radii; vectors: the box [-1500,1500]^2 ([-6000,6000]^2), all pairs of 190 boundary coordinates, 2^22 (2^28) spread directions at 31 lengths; all (2^32) whole degrees by 2^26
//@ assume: radii from 0 to 2^30, coordinates up to 2^30 in magnitude; libm cos, sin, atan2 and hypot in double precision are accurate to 2^-50
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <cmath>
using namespace mc;
using i64 = long long;
static double const turn = 2147483648.0, K = 2 * 3.14159265358979323846 / turn;
#ifdef SMALL
static u64 const stride = 509;
#else
static u64 const stride = 1;
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { u64 k = 0; for (u64 i = lo; i < hi; i += stride) { if ((k++ & 255) == 0 || stride > 1) at(i); f(i); } nontrivial(k); step(k); }

static void rotate(int r, int t, double c, double s)
{
    auto v = ce::to_cartesian(r, t);
    double tol = 0.502 + 0.8 * r / 1073741824.0, ex = std::fabs(v.x - r * c), ey = std::fabs(v.y - r * s);
    MC_CHECK(ex <= tol && ey <= tol, "to_cartesian(%d, %d) is (%d, %d), exactly (%.3f, %.3f)", r, t, v.x, v.y, r * c, r * s);
}
static void rotate(int r, int t) { rotate(r, t, std::cos(K * t), std::sin(K * t)); }
static void forms(int r, int t)
{
    auto v = ce::to_cartesian(r, t);
    MC_CHECK(ce::cos_2pi(r, t) == v.x && ce::sin_2pi(r, t) == v.y, "cos_2pi and sin_2pi of (%d, %d) are %d and %d, to_cartesian (%d, %d)", r, t, ce::cos_2pi(r, t), ce::sin_2pi(r, t), v.x, v.y);
}
static int const radii[] = { 1, 1000, 1 << 16, 12345679, 1 << 29, 1 << 30 };
MC_SWEEP(angles, u64(1) << 25, u64(1) << 32, 1 << 16)
{
    each(lo, hi, [](u64 i) { u32 a = thorough ? u32(i) : u32(i * 128 + (i >> 13) % 128); int t = int(a); double c = std::cos(K * t), s = std::sin(K * t); for (int r : radii) rotate(r, t, c, s); if ((i & 63) == 0) for (int r : radii) forms(r, t); });
}
static int radius(u64 k) { int b = int(k / 2); return k % 2 ? (1 << b) : (1 << b) - 1; }
MC_SWEEP(octants, 256 * 1025, 256 * 1025, 64)
{
    each(lo, hi, [](u64 i) { int t = int((u32(i / 1025) << 24) + u32(i % 1025) - 512u); double c = std::cos(K * t), s = std::sin(K * t); for (u64 k = 0; k < 62; ++k) rotate(radius(k), t, c, s); forms(radius(i % 62), t); });
}
MC_SWEEP(small_radii, 1 << 16, 1 << 20, 64)
{
    static double c[512], s[512]; static bool ready = [] { for (int k = 0; k < 512; ++k) { int t = int(u32(k) * 8388608u + u32(k) * 4099u); c[k] = std::cos(K * t); s[k] = std::sin(K * t); } return true; }(); (void)ready;
    each(lo, hi, [](u64 i) { for (int k = 0; k < 512; ++k) rotate(int(i), int(u32(k) * 8388608u + u32(k) * 4099u), c[k], s[k]); });
}
static void polar(int x, int y, bool more)
{
    if (x == 0 && y == 0) return;
    auto p = ce::to_polar(x, y);
    double L = std::hypot(double(x), double(y)), a = std::atan2(double(y), double(x)) / K;
    MC_CHECK(std::fabs(p.x - L) <= 0.502 + 0.3 * L / 1073741824.0, "the length of (%d, %d) is %d, exactly %.3f", x, y, p.x, L);
    double d = p.y - a; if (d > turn / 2) d -= turn; if (d < -turn / 2) d += turn;
    MC_CHECK(std::fabs(d) <= (L < 8 ? 1.1 : 0.72), "the angle of (%d, %d) is %d, exactly %.3f", x, y, p.y, a);
    MC_CHECK(p.y >= -(1 << 30) && p.y <= 1 << 30, "the angle of (%d, %d) is %d, outside the half turns", x, y, p.y);
    if (!more) return;
    MC_CHECK(ce::polar_mag(x, y) == p.x && ce::polar_ang(x, y) == p.y && ce::atan2_2pi(y, x) == p.y, "polar_mag, polar_ang, atan2_2pi of (%d, %d) are %d, %d, %d; to_polar (%d, %d)", x, y, ce::polar_mag(x, y), ce::polar_ang(x, y), ce::atan2_2pi(y, x), p.x, p.y);
    if (L > 1073741824.0) return;
    auto c = ce::to_cartesian(p.x, p.y);
    double e = std::fmax(std::fabs(double(c.x) - x), std::fabs(double(c.y) - y)), tol = L < (1 << 26) ? 1 : 3;
    MC_CHECK(e <= tol, "(%d, %d) becomes (%d, %d) in polar form and back (%d, %d)", x, y, p.x, p.y, c.x, c.y);
}
MC_SWEEP(vectors, 3001, 12001, 4)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
#ifdef SMALL
        if (i % 61) continue;
#endif
        int n = thorough ? 6000 : 1500, x = int(i) - n; for (int y = -n; y <= n; ++y) polar(x, y, y % 16 == 0 || y < -n + 64); nontrivial(); step(u64(2 * n + 1));
    }
}
static int coord(u64 k) { int s = k % 2 ? -1 : 1; k /= 2; if (k == 0) return 0; --k; i64 v = (i64(1) << (k / 3)) + i64(k % 3) - 1; if (v > 1 << 30) v = 1 << 30; return s * int(v); }
MC_SWEEP(vector_edges, 190 * 190, 190 * 190, 64) { each(lo, hi, [](u64 i) { polar(coord(i % 190), coord(i / 190), true); }); }
MC_SWEEP(directions, u64(1) << 22, u64(1) << 28, 1 << 12)
{
    each(lo, hi, [](u64 i) { u32 t = u32(i * 2654435761u); double c = std::cos(K * int(t)), s = std::sin(K * int(t)); int b = int(i % 31); for (int k : { b, 30 }) polar(int((1 << k) * c), int((1 << k) * s), true); });
}
MC_SWEEP(degrees, u64(1) << 26, u64(1) << 32, 1 << 18)
{
    each(lo, hi, [](u64 i)
    {
        int d = thorough ? int(u32(i)) : i < (1 << 20) ? int(i) - (1 << 19) : int(u32(i * 64 + (i >> 9) % 64));
        int got = ce::degrees_to_angle(d);
        // d * 2^31 / 360 = d * 2^28 / 45, modulo a full turn of 2^31
        i64 num = i64(d) * 268435456, q = num / 45; bool exact = num % 45 == 0; if (num < 0 && !exact) --q;
        u32 diff = (u32(got) - u32(u64(q))) & 0x7fffffff;
        MC_CHECK(exact ? diff == 0 : diff <= 1, "degrees_to_angle(%d) is %d", d, got);
    });
}
MC_SWEEP(named_angles, 9, 9, 9)
{
    static int const names[] = { ce::_0, ce::_45, ce::_90, ce::_135, ce::_180, ce::_225, ce::_270, ce::_315, ce::_360 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int d = int(i) * 45; constexpr int q = ce::degrees_to_angle(90); MC_CHECK(q == ce::_90, "degrees_to_angle(90) as a constant");
        MC_CHECK(((u32(names[i]) - u32(ce::degrees_to_angle(d))) & 0x7fffffff) == 0, "the angle named _%d is not %d degrees", d, d);
        nontrivial(); sample("%d degrees are %d", d, names[i]);
    }
}
