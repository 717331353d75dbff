//@ level: exploration
//@ technique: exhaustive enumeration of all combinations of boundary operands and complete small boxes of the real products and vector operators against 128 bit and componentwise arithmetic
//@ note: ab_less_cd over all 4-tuples of 64 bit boundary values (differences of one in every operand included) and all 4-tuples of a small box; vector operators over all component combinations for four component types and both dimensions.
//@ cxx: -O2
//@ config plain:
//@ config o0: -O0 -DSMALL
//@ rule: the operands are not all zero
//@ bounds: ab_less_cd: 44^4 tuples of 64 bit values, [-12,12]^4, 2^22 (2^30) near-equal products; products of vectors: 26^4 tuples (2D) and 9^6 tuples (3D) of 32 bit boundary values; operators: all pairs of 2D vectors over 12 values and 3D vectors over 5 values and 6 scalars, int, long, float, double
//@ assume: results of component arithmetic fit the component type; scalars are not components of the vector they are applied to
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <cstring>
using namespace mc;
using i64 = ce::int64_t; using i128 = __int128;
#ifdef SMALL
static u64 const stride = 211;
#else
static u64 const stride = 1;
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { u64 k = 0; for (u64 i = lo; i < hi; i += stride) { if ((k++ & 255) == 0 || stride > 1) at(i); f(i); } nontrivial(k); step(k); }

static void less(i64 a, i64 b, i64 c, i64 d) { bool g = ce::math::ab_less_cd(a, b, c, d), w = i128(a) * b < i128(c) * d; MC_CHECK(g == w, "ab_less_cd(%ld, %ld, %ld, %ld) is %d", (long)a, (long)b, (long)c, (long)d, g); }
static i64 wide(u64 k)
{
    static u64 const base[] = { 0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x3fffffffffffffff, 0x4000000000000000, 0x7ffffffffffffffe, 0x7fffffffffffffff, 0x5555555555555555, 3037000499, 3037000500, 0x00000000fffffffe, 1000000007, 0x123456789abcdef, 0x7fffffff00000000, 0x6666666666666667, 0x200000000000001 };
    i64 v = i64(base[k % 22]); return k >= 22 ? ~v : v;
}
MC_SWEEP(less_wide, 44 * 44 * 44, 44 * 44 * 44, 64) { each(lo, hi, [](u64 i) { i64 a = wide(i % 44), b = wide(i / 44 % 44), c = wide(i / 1936); for (u64 k = 0; k < 44; ++k) less(a, b, c, wide(k)); }); }
MC_SWEEP(less_box, 25 * 25, 25 * 25, 1) { each(lo, hi, [](u64 i) { for (int c = -12; c <= 12; ++c) for (int d = -12; d <= 12; ++d) less(int(i % 25) - 12, int(i / 25) - 12, c, d); }); }
// (x+e)(y+f) against (x+g)(y+h): equal high halves, equal products, a difference only in the low half
MC_SWEEP(less_near, u64(1) << 22, u64(1) << 30, 1 << 12)
{
    each(lo, hi, [](u64 i)
    {
        u64 r = i * 0x9e3779b97f4a7c15ull; r ^= r >> 29; r *= 0xbf58476d1ce4e5b9ull; r ^= r >> 32;
        i64 x = i64(r) >> (i % 63), y = i64(r * 0x94d049bb133111ebull) >> (i / 63 % 63);
        less(x, y, y, x); less(x, y, y, x - 1 > x ? x : x - 1);
        if (x < 0x7fffffffffffffff && y < 0x7fffffffffffffff) less(x, y, x + 1, y), less(x + 1, y, x, y + 1), less(x, y + 1, x + 1, y), less(x + 1, y + 1, y, x);
        if (x > -0x7fffffffffffffff) less(-x, y, x, y), less(x, y, -x, y);
    });
}

static int const V[] = { 0, 1, -1, 2, -3, 7, 255, -256, 32767, -32768, 46340, 46341, -46341, 65535, 65536, 1000003, (1 << 24) + 1, 0x3fffffff, 1 << 30, -(1 << 30), 0x7ffffffe, 0x7fffffff, -0x7fffffff, -0x7fffffff - 1, 0x55555555, -0x2aaaaaab };
using V2 = ce::vec2<int>; using V3 = ce::vec3<int>;
MC_SWEEP(products2, 26 * 26 * 26, 26 * 26 * 26, 64)
{
    each(lo, hi, [](u64 i)
    {
        for (int d : V)
        {
            V2 a{ V[i % 26], V[i / 26 % 26] }, b{ V[i / 676], d };
            i128 dot = i128(a.x) * b.x + i128(a.y) * b.y, crs = i128(a.x) * b.y - i128(a.y) * b.x, sq = i128(a.x) * a.x + i128(a.y) * a.y;
            auto fits = [](i128 v) { return v == i128(i64(v)); };
            MC_CHECK(sizeof(dotx(a, b)) == 8 && sizeof(crossx(a, b)) == 8 && sizeof(sqrx(a)) == 8, "the products of 32 bit vectors are not 64 bits wide");
            if (fits(dot)) MC_CHECK(dotx(a, b) == i64(dot), "dotx of (%d,%d) and (%d,%d) is %ld", a.x, a.y, b.x, b.y, (long)dotx(a, b));
            if (fits(crs)) MC_CHECK(crossx(a, b) == i64(crs), "crossx of (%d,%d) and (%d,%d) is %ld", a.x, a.y, b.x, b.y, (long)crossx(a, b));
            if (fits(sq)) MC_CHECK(sqrx(a) == i64(sq), "sqrx of (%d,%d) is %ld", a.x, a.y, (long)sqrx(a));
            MC_CHECK(ce::math::dotx(a.x, b.y) == i64(a.x) * b.y && ce::math::sqrx(a.x) == i64(a.x) * a.x, "dotx or sqrx of %d and %d", a.x, b.y);
            i64 p = a.x, q = b.y; MC_CHECK(ce::math::dotx(p, q) == p * q && ce::math::sqrx(p) == p * p, "dotx or sqrx of %ld and %ld", (long)p, (long)q);
            ce::vec2<i64> A{ a.x, a.y }, B{ b.x, b.y };
            if (fits(dot)) MC_CHECK(dotx(A, B) == i64(dot), "dotx of 64 bit vectors");
            if (fits(crs)) MC_CHECK(crossx(A, B) == i64(crs), "crossx of 64 bit vectors");
        }
    });
}
static int const W[] = { 0, 1, -1, 3, -46341, 65537, 0x2fffffff, -(1 << 29), 1000003 };
MC_SWEEP(products3, 59049, 59049, 64)
{
    each(lo, hi, [](u64 i)
    {
        u64 r = i; int c[5]; for (int& k : c) k = W[r % 9], r /= 9;
        for (int f : W)
        {
            V3 a{ c[0], c[1], c[2] }, b{ c[3], c[4], f };
            i64 dot = i64(a.x) * b.x + i64(a.y) * b.y + i64(a.z) * b.z;
            MC_CHECK(dotx(a, b) == dot, "dotx of (%d,%d,%d) and (%d,%d,%d) is %ld", a.x, a.y, a.z, b.x, b.y, b.z, (long)dotx(a, b));
            auto x = crossx(a, b);
            MC_CHECK(sizeof x.x == 8 && x.x == i64(a.y) * b.z - i64(a.z) * b.y && x.y == i64(a.z) * b.x - i64(a.x) * b.z && x.z == i64(a.x) * b.y - i64(a.y) * b.x, "crossx of (%d,%d,%d) and (%d,%d,%d) is (%ld,%ld,%ld)", a.x, a.y, a.z, b.x, b.y, b.z, (long)x.x, (long)x.y, (long)x.z);
        }
    });
}
MC_SWEEP(orientation, 1, 1, 1)
{
    at(0); V2 x{ 1, 0 }, y{ 0, 1 }; V3 X{ 1, 0, 0 }, Y{ 0, 1, 0 }, Z{ 0, 0, 1 };
    MC_CHECK(crossx(x, y) == 1 && crossx(y, x) == -1, "orientation of crossx in the plane");
    auto z = crossx(X, Y), xx = crossx(Y, Z), yy = crossx(Z, X);
    MC_CHECK(z.x == 0 && z.y == 0 && z.z == 1 && xx.x == 1 && xx.y == 0 && xx.z == 0 && yy.x == 0 && yy.y == 1 && yy.z == 0, "right hand rule of crossx");
    nontrivial(); sample("crossx of the axes");
}
// ---- operators, component by component; guards beside the vectors
template<class T> struct set2 { static T v(u64 k) { static T const a[] = { T(0), T(1), T(-1), T(2), T(3), T(-7), T(100), T(16777217), T(-20000001), T(46), T(-46), T(20000) }; return a[k % 12]; } };
template<> struct set2<i64> { static i64 v(u64 k) { static i64 const a[] = { 0, 1, -1, 2, 3, -7, 100, 9007199254740993, -90071992547409931, 4294967297, -46, 2147483647 }; return a[k % 12]; } };
template<> struct set2<float> { static float v(u64 k) { static float const a[] = { 0.f, 1.f, -1.f, 2.5f, .1f, -7.25f, 1e10f, 1e-10f, -30000.f, 3.3333f, -0.f, 1.f / 3 }; return a[k % 12]; } };
template<> struct set2<double> { static double v(u64 k) { static double const a[] = { 0., 1., -1., 2.5, .1, -7.25, 1e100, 1e-100, -30000., 3.3333, -0., 1. / 3 }; return a[k % 12]; } };
template<class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
template<class T, size_t N> struct vecn; template<class T> struct vecn<T, 2> { using type = ce::vec2<T>; }; template<class T> struct vecn<T, 3> { using type = ce::vec3<T>; };
template<class T> static T& c(ce::vec2<T>& v, size_t i) { return i ? v.y : v.x; }
template<class T> static T& c(ce::vec3<T>& v, size_t i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
template<class T, size_t N> static void ops(typename vecn<T, N>::type a, typename vecn<T, N>::type b, T s)
{
    using Q = typename vecn<T, N>::type;
    struct { T g0; Q v; T g1; } m{ T(77), a, T(78) };
    Q sum = a + b, dif = a - b, mul = a * s, quo = s != T(0) ? a / s : a;
    bool eq = true, eqs = true;
    for (size_t i = 0; i < N; ++i)
    {
        T x = c(a, i), y = c(b, i);
        MC_CHECK(same(c(sum, i), T(x + y)), "component %zu of a vector sum", i); MC_CHECK(same(c(dif, i), T(x - y)), "component %zu of a vector difference", i);
        MC_CHECK(same(c(mul, i), T(x * s)), "component %zu of a vector times a scalar", i); if (s != T(0)) MC_CHECK(same(c(quo, i), T(x / s)), "component %zu of a vector by a scalar", i);
        eq &= x == y; eqs &= x == s;
    }
    MC_CHECK((a == b) == eq && (a != b) == !eq, "== and != of two vectors"); MC_CHECK((a == s) == eqs && (a != s) == !eqs, "== and != of a vector and a scalar");
    Q* r = &(m.v += b); MC_CHECK(r == &m.v && memcmp(&m.v, &sum, sizeof sum) == 0, "+= of vectors"); m.v = a;
    r = &(m.v -= b); MC_CHECK(r == &m.v && memcmp(&m.v, &dif, sizeof sum) == 0, "-= of vectors"); m.v = a;
    r = &(m.v *= s); MC_CHECK(r == &m.v && memcmp(&m.v, &mul, sizeof sum) == 0, "*= of a vector"); m.v = a;
    if (s != T(0)) { r = &(m.v /= s); MC_CHECK(r == &m.v && memcmp(&m.v, &quo, sizeof sum) == 0, "/= of a vector"); m.v = a; }
    r = &(m.v += m.v); for (size_t i = 0; i < N; ++i) MC_CHECK(same(c(*r, i), T(c(a, i) + c(a, i))), "+= of a vector and itself"); m.v = a;
    r = &(m.v -= m.v); for (size_t i = 0; i < N; ++i) MC_CHECK(same(c(*r, i), T(c(a, i) - c(a, i))), "-= of a vector and itself");
    MC_CHECK(m.g0 == T(77) && m.g1 == T(78), "memory beside the vector changed");
}
template<class T> static void two(u64 i) { using S = set2<T>; for (u64 k : { 1, 2, 3, 5, 6, 0, 4 }) ops<T, 2>({ S::v(i), S::v(i / 12) }, { S::v(i / 144), S::v(i / 1728) }, S::v(k)); }
template<class T> static void three(u64 i) { using S = set2<T>; u64 const q[] = { 0, 1, 2, 5, 9 }; auto w = [&](u64 k) { return S::v(q[k % 5]); }; for (u64 k : { 1, 2, 3, 5, 6, 0, 4 }) ops<T, 3>({ w(i), w(i / 5), w(i / 25) }, { w(i / 125), w(i / 625), w(i / 3125) }, S::v(k)); }
MC_SWEEP(operators2, 20736 * 4, 20736 * 4, 64) { each(lo, hi, [](u64 i) { u64 r = i / 4; switch (i % 4) { case 0: two<int>(r); break; case 1: two<i64>(r); break; case 2: two<float>(r); break; default: two<double>(r); } }); }
MC_SWEEP(operators3, 15625 * 4, 15625 * 4, 64) { each(lo, hi, [](u64 i) { u64 r = i / 4; switch (i % 4) { case 0: three<int>(r); break; case 1: three<i64>(r); break; case 2: three<float>(r); break; default: three<double>(r); } }); }
