//@ level: exploration
//@ technique: exhaustive enumeration of floats (every single component, every scale of a complete set of directions, all triples of boundary values) through the real function, against the direction and length in double precision
//@ note: An edge of the approximate reciprocal root can lie at any mantissa, so all mantissas (thorough: all floats) are enumerated along five directions.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: at least two components are not zero
//@ bounds: along 5 directions every 16th (every) float whose squares are normal; all directions of the box -12..12 (-40..40) cubed at every power of two from 2^-60 to 2^58; all triples of 62 boundary values of both signs
//@ assume: the squared length is a normal float; the reciprocal root of the machine is accurate to 2^-11, as all x86 processors promise
#include "mc.h"
#include "ce/ce.h"
#include "ce/math.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <vector>
using namespace mc;
namespace ce { namespace os { void log(int, int, char const* [][2]) { } bool error(int, int, char const* [][2]) { return false; } } }
using V = ce::math::vec3<float>;
static void unit(float x, float y, float z)
{
    double m = double(x) * x + double(y) * y + double(z) * z;
    if (!(m >= double(FLT_MIN) * 1.001 && m <= double(FLT_MAX) * 0.999)) return;
    V const v{ x, y, z }; V n = ce::math::normal(v);
    MC_CHECK(v.x == x && v.y == y && v.z == z, "normal changed its argument");
    double len = std::sqrt(m); float const a[3] = { x, y, z }, b[3] = { n.x, n.y, n.z };
    for (int k = 0; k < 3; ++k)
    {
        double want = a[k] / len, err = std::fabs(b[k] - want), tol = std::fabs(want) / 2048 + 3e-45;
        MC_CHECK(err <= tol, "component %d of normal({%a, %a, %a}) is %a, exactly %a", k, double(x), double(y), double(z), double(b[k]), want);
        MC_CHECK(std::signbit(b[k]) == std::signbit(a[k]) && (a[k] != 0 || b[k] == 0), "component %d of normal({%a, %a, %a}) is %a: its sign or zero is lost", k, double(x), double(y), double(z), double(b[k]));
    }
    // one factor for all: the direction is kept far better than the length
    double nx = b[0], ny = b[1], nz = b[2], c0 = ny * a[2] - nz * a[1], c1 = nz * a[0] - nx * a[2], c2 = nx * a[1] - ny * a[0];
    MC_CHECK(std::sqrt(c0 * c0 + c1 * c1 + c2 * c2) <= len * 1e-6, "normal({%a, %a, %a}) = {%a, %a, %a} points elsewhere", double(x), double(y), double(z), nx, ny, nz);
    if ((x != 0) + (y != 0) + (z != 0) > 1) nontrivial();
    step();
}
static float bits(u64 b) { unsigned u = unsigned(b); float f; memcpy(&f, &u, 4); return f; }
#ifdef SMALL
static u64 const stride = 4099;
#else
static u64 const stride = 1;
#endif
// floats from 2^-64 to 2^64: the squares of the others are not normal
MC_SWEEP(floats, u64(1) << 26, u64(1) << 30, 1 << 16)
{
    for (u64 i = lo; i < hi; i += stride)
    {
        if (i % 256 == 0 || stride > 1) at(i);
        u64 k = thorough ? i : i * 16 + i % 16; float f = bits(0x1f800000u + k); if (i % 3 == 1) f = -f;
        unit(f, 0, 0); unit(0, f, 0); unit(0, 0, f); unit(f, -f, f); unit(f, f * 0.75f, f * -1e-3f);
    }
}
// every direction of a box, every scale
MC_SWEEP(directions, 25 * 25 * 25, 81 * 81 * 81, 256)
{
    int const n = thorough ? 81 : 25;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int x = int(i) % n - n / 2, y = int(i) / n % n - n / 2, z = int(i) / n / n - n / 2;
        for (int e = -60; e <= 58; e += stride > 1 ? 17 : 1) { float s = std::ldexp(1.0f, e); unit(float(x) * s, float(y) * s, float(z) * s); }
    }
}
static std::vector<float> const& values()
{
    static std::vector<float> const r = [] { std::vector<float> v{ 0.0f, -0.0f };
        for (int e : { -126, -70, -64, -63, -40, -12, -1, 0, 1, 10, 30, 62, 63 }) for (float m : { 1.0f, 1.9999999f }) v.push_back(std::ldexp(m, e)), v.push_back(-std::ldexp(m, e));
        for (float f : { 1e-45f, 3.3e-39f, 0.1f, 3.14159f }) v.push_back(f), v.push_back(-f); return v; }();
    return r;
}
MC_SWEEP(boundaries, 62, 62, 1)
{
    auto const& v = values();
    for (u64 i = lo; i < hi; ++i) { at(i); for (size_t j = 0; j < v.size(); j += stride > 1 ? 5 : 1) for (size_t k = 0; k < v.size(); ++k) unit(v[i], v[j], v[k]); }
}
