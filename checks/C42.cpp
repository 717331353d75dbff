//@ level: exploration
//@ technique: exhaustive enumeration of the float bit patterns (all 2^32 in the thorough tier) and of complete families of double bit patterns on the real to_text; the text is read back by the C library and its length compared with the shortest text of the fewest digits that read back
//@ note: float is complete in the thorough tier. For double the families are every exponent with every mantissa of the listed shapes and the neighbourhoods of every decimal of up to 4 digits; the other patterns are not enumerated. Fewest digits are found by printing with one digit less until the value is lost.
//@ cxx: -O2
//@ repo: to_text.cpp
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: the value is finite and not zero
//@ bounds: float: every sign and exponent with every mantissa whose bits lie in the top 8 or bottom 6 bits (+1, -1), thorough all 2^32; double: every sign and exponent with 900 mantissas (every single bit, runs of ones, top and bottom 8 bits), every decimal d*10^e with up to 3 (4) digits and its 4 neighbours
//@ assume: strtof, strtod and printf of the C library round correctly; the numeric locale is "C"
#include "mc.h"
#include "ce/ce.h"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <memory>
using namespace mc;
namespace ce { namespace os { void log(int, int, char const* [][2]) { } bool error(int, int, char const* [][2]) { return false; } } }
static float back(char const* t, char** e, float) { return strtof(t, e); }
static double back(char const* t, char** e, double) { return strtod(t, e); }
template<class T, class B> static T of(B b) { T v; memcpy(&v, &b, sizeof v); return v; }
template<class T> static bool same(T a, T b) { return !memcmp(&a, &b, sizeof a); }
static u64 finites, all;
template<class T> static void check(T v)
{
    ++all;
    char store[64], text[64]; memset(store, '~', sizeof store);
    char* at = store;
#ifdef SMALL
    std::unique_ptr<char[]> exact(new char[32]); at = exact.get(); memset(at, '~', 32);
#endif
    char* end = ce::to_text(at, v);
    u64 bits = 0; memcpy(&bits, &v, sizeof v); int w = sizeof v * 2;
    MC_CHECK(end > at && end <= at + 32, "to_text of %0*llx (%.17g) returns an end %ld characters away", w, bits, double(v), long(end - at));
    int n = int(end - at); memcpy(text, at, size_t(n)); text[n] = 0;
#ifndef SMALL
    for (int i = n; i < 64; ++i) MC_CHECK(store[i] == '~', "to_text of %0*llx (%.17g) writes beyond its end: %s", w, bits, double(v), text);
#endif
    for (int i = 0; i < n; ++i) MC_CHECK(strchr("0123456789+-.einfa", text[i]) && text[i], "to_text of %0*llx (%.17g) contains the byte %02x: %s", w, bits, double(v), (unsigned char)text[i], text);
    char* stop; T r = back(text, &stop, v);
    MC_CHECK(*stop == 0, "to_text of %0*llx (%.17g) is not a number: %s", w, bits, double(v), text);
    if (v != v) { MC_CHECK(r != r, "to_text of the NaN %0*llx is %s", w, bits, text); return; }
    MC_CHECK(same(r, v), "to_text of %0*llx (%.17g) is %s which reads back as %.17g", w, bits, double(v), text, double(r));
    if (std::isinf(v) || v == 0) { MC_CHECK(n - (text[0] == '-') <= (v == 0 ? 1 : 3), "to_text of %.17g is %s", double(v), text); return; }
    ++finites;
    // fewest digits, starting from those of the text
    int first = -1, last = -1, seen = 0; for (int i = 0; i < n && text[i] != 'e'; ++i) if (text[i] >= '0' && text[i] <= '9') { if (text[i] != '0') { if (first < 0) first = seen; last = seen; } ++seen; }
    int k = last - first + 1, neg = text[0] == '-'; char low[64]; int ex;
    if (char* e = strchr(text, 'e')) ex = atoi(e + 1); else { char* dot = strchr(text, '.'); int whole = int((dot ? dot : text + n) - text) - neg; ex = whole - 1 - first; }
    while (k > 1) { snprintf(low, sizeof low, "%.*e", k - 2, double(v)); if (!same(back(low, &stop, v), v)) break; --k; while (k > 1 && low[neg + (k == 1 ? 0 : k)] == '0') --k; ex = atoi(strchr(low, 'e') + 1); }
    int ax = abs(ex), sci = k + (k > 1) + 2 + (ax >= 100 ? 3 : 2), fixed = ex >= k - 1 ? ex + 1 : ex >= 0 ? k + 1 : 1 + k - ex;
    int best = neg + (sci < fixed ? sci : fixed);
    MC_CHECK(n <= best, "to_text of %0*llx (%.17g) is %s (%d characters), %d digits and %d characters are enough", w, bits, double(v), text, n, k, best);
    if ((bits * 0x9e3779b97f4a7c15ull >> 44) == 77 && want_sample()) sample("%0*llx -> %s", w, bits, text);
}
#ifdef SMALL
static u64 const stride = 97;
#else
static u64 const stride = 1;
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { finites = all = 0; u64 k = 0; for (u64 i = lo; i < hi; ++i) { if (stride > 1 && (i * 0x9e3779b97f4a7c15ull >> 32) % stride) continue; if ((k++ & 63) == 0 || stride > 1) at(i); f(i); } step(all); nontrivial(finites); }
MC_SWEEP(float_shapes, u64(512) * 16384 * 3, u64(512) * 16384 * 3, 1 << 14)
{
    each(lo, hi, [](u64 i) { u64 d = i % 3; i /= 3; u32 m = u32(i & 63) | u32(i >> 6 & 255) << 15, e = u32(i >> 14); check(of<float>((e << 23) + ((m + u32(d) - 1) & 0x7fffff))); });
}
MC_SWEEP(float_all, 0, u64(1) << 32, 1 << 20) { each(lo, hi, [](u64 i) { check(of<float>(u32(i))); }); }
static u64 mantissa(u64 i)
{
    u64 const full = (u64(1) << 52) - 1;
    if (i < 256) return i; i -= 256;
    if (i < 256) return i << 44; i -= 256;
    if (i < 128) return full - i; i -= 128;
    if (i < 52) return u64(1) << i; i -= 52;
    if (i < 52) return (u64(1) << i) - 1; i -= 52;
    if (i < 52) return full ^ ((u64(1) << i) - 1); i -= 52;
    if (i < 52) return full ^ u64(1) << i; i -= 52;
    static u64 const p[] = { 0x5555555555555, 0xaaaaaaaaaaaaa, 0x3333333333333, 0xccccccccccccc, 0x921fb54442d18, 0x5bf0a8b145769, 0x999999999999a, 0x23456789abcde };
    return p[i % 8] >> i / 8;
}
MC_SWEEP(double_shapes, u64(4096) * 900, u64(4096) * 900, 1 << 12) { each(lo, hi, [](u64 i) { check(of<double>((i / 900) << 52 | mantissa(i % 900))); }); }
MC_SWEEP(double_decimals, u64(999) * 640 * 5, u64(9999) * 640 * 5, 1 << 12)
{
    each(lo, hi, [](u64 i) { char t[32]; snprintf(t, sizeof t, "%llue%d", 1 + i / 3200, int(i / 5 % 640) - 328); double v = strtod(t, nullptr); u64 b; memcpy(&b, &v, 8); b += i % 5 - 2; check(of<double>(b)); });
}
MC_SWEEP(double_integers, u64(64) * 3 * 200, u64(64) * 3 * 200, 256)
{
    each(lo, hi, [](u64 i) { u64 b = i / 600, c = i / 200 % 3, d = i % 200; double v = double((u64(1) << b) * (c == 1 ? 3 : 1) + d - 100) * (c == 2 ? -0.01 : 1); check(v); check(float(v)); });
}
