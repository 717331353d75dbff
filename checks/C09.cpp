//@ level: exploration
//@ technique: exhaustive enumeration of the input space (every 8, 16 and 32 bit value; for 64 bit every value of every 8-digit chunk and every carry boundary) of the real to_text
//@ note: 8, 16 and 32 bit types completely; 64 bit values through every value of each of the three chunks the decimal splits into and all neighbourhoods of powers of ten and two. The rest of the 64 bit space is not enumerated.
//@ cxx: -O2
//@ repo: to_text.cpp
//@ config plain:
//@ config asan: -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,shift,signed-integer-overflow -DSMALL
//@ rule: a value whose text has at least two characters
//@ bounds: 8, 16 and 32 bit types complete, signed and unsigned; 64 bit: every value of each of the 8-digit chunks (2^32 x 10^8 form and 1844 x 10^8 x 10^8 form; quick 1/8 of the 2^32) with the other chunks fixed, every 10^k multiple neighbourhood, all 0/9, 0/1 and 1/8 patterns of 20 digits; the sanitizer build covers 1/256 of the big sweeps
//@ assume: the expected text is produced by repeated division by ten
#include "mc.h"
#include "ce/ce.h"
#include <cstring>
#include <climits>
using namespace mc;

static int oracle(char* out, bool neg, u64 mag)
{
    char t[24]; int n = 0;
    do t[n++] = char('0' + mag % 10), mag /= 10; while (mag);
    int k = 0; if (neg) out[k++] = '-';
    while (n) out[k++] = t[--n];
    return k;
}
template<class T> static void one(T v)
{
    char want[24], got[64];
    bool neg = v < T(0); u64 mag = neg ? 0 - u64(v) : u64(v);
    int n = oracle(want, neg, mag);
    memset(got, 0x7e, sizeof got);
    char* e = ce::to_text(got + 16, v);
    bool ok = e == got + 16 + n && memcmp(got + 16, want, size_t(n)) == 0;
    for (int i = 0; i < 16; ++i) ok &= got[i] == 0x7e;
    for (int i = 16 + n; i < 64; ++i) ok &= got[i] == 0x7e;
    if (!ok) { got[63] = 0; fail("to_text of %.*s gives %.*s (length %d), or writes outside its text", n, want, int(e > got + 16 && e < got + 60 ? e - got - 16 : 0), got + 16, int(e - got - 16)); }
    MC_CHECK(size_t(n) <= ce::measure<T>::value, "the size reserved for %.*s is only %zu", n, want, size_t(ce::measure<T>::value));
    if (n > 1) nontrivial();
}
template<class T> static void text(T v)
{
    char want[24]; bool neg = v < T(0); u64 mag = neg ? 0 - u64(v) : u64(v); int n = oracle(want, neg, mag); want[n] = 0;
    ce::as_string s{ v };
    MC_CHECK(strcmp(s.as, want) == 0, "as_string of %s is %.40s", want, s.as);
    ce::as_string s3{ v, v, "x", v };
    char w3[90]; snprintf(w3, sizeof w3, "%s%sx%s", want, want, want);
    MC_CHECK(strcmp(s3.as, w3) == 0, "as_string of three times %s is %.90s", want, s3.as);
}
MC_SWEEP(bits8, 256, 256, 16) { for (u64 i = lo; i < hi; ++i) { at(i); one((unsigned char)i); one((signed char)i); text((unsigned char)i); text((signed char)i); step(4); } }
MC_SWEEP(bits16, 65536, 65536, 1024) { for (u64 i = lo; i < hi; ++i) { at(i); one((unsigned short)i); one((short)i); text((unsigned short)i); text((short)i); one(int(i)); one(long(i)); one((long long)i); one((unsigned long)i); one((unsigned long long)i); one(-int(i)); one(-long(i)); step(11); if (i % 9973 == 17 && want_sample()) sample("%llu and the values it stands for in every narrower type", i); } }

// exact-size buffer: as_string is on the stack next to guards, under AddressSanitizer in the asan build
static const long long edges[] = { 0, 1, -1, 9, 10, -9, -10, 99, 100, 999999, 1000000, 99999999, 100000000, 999999999, 1000000000, INT_MAX, INT_MIN, UINT_MAX, 4294967296ll, 9999999999999999ll, 10000000000000000ll, 999999999999999999ll, 1000000000000000000ll, LLONG_MAX, LLONG_MIN, LLONG_MIN + 1 };
MC_SWEEP(reserved, sizeof edges / sizeof *edges, sizeof edges / sizeof *edges, 4)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); long long v = edges[i];
        text(v); text((unsigned long long)v); text(long(v)); text((unsigned long)v); text(int(v)); text((unsigned)v); text(short(v)); text((unsigned short)v); step(8); nontrivial();
        one(v); one((unsigned long long)v); one(long(v)); one((unsigned long)v); one(int(v)); one((unsigned)v);
    }
}
static void all64(u64 v)
{
    one((unsigned long long)v); one((long long)v); one((unsigned long)v); one((long)v); step(4);
    if (v >> 32) return;
    one(unsigned(v)); one(int(unsigned(v))); step(2);
}
// counting through consecutive values: the expected text is the previous one plus one, digit by digit
struct odometer
{
    char t[40]; int b = 24, e = 24;       // text is t[b..e)
    void set(u64 v, int fixed) { char w[24]; int n = oracle(w, false, v); b = e - n; memcpy(t + b, w, size_t(n)); while (e - b < fixed) t[--b] = '0'; }
    void inc() { int i = e - 1; for (; i >= b; --i) { if (t[i] != '9') { ++t[i]; return; } t[i] = '0'; } t[--b] = '1'; }
};
static char got[96];
static void clear() { memset(got, 0x7e, sizeof got); }
template<class T> static inline void run(T v, char const* pre, int np, odometer const& o, char const* post, int nq)
{
    char* p = got + 16;
    char* e = ce::to_text(p, v);
    int n = o.e - o.b, all = np + n + nq;
    u64 g[3]; memcpy(g, got + 8, 8);
    bool ok = e == p + all;
    if (ok)
    {
        memcpy(g + 1, e, 16);
        ok = memcmp(p + np, o.t + o.b, size_t(n)) == 0 && memcmp(p, pre, size_t(np)) == 0 && memcmp(p + np + n, post, size_t(nq)) == 0
            && g[0] == 0x7e7e7e7e7e7e7e7eull && g[1] == 0x7e7e7e7e7e7e7e7eull && g[2] == 0x7e7e7e7e7e7e7e7eull;
    }
    if (!ok) fail("to_text of %.*s%.*s%.*s gives %.*s (length %d), or writes outside its text", np, pre, n, o.t + o.b, nq, post, e > p && e < got + 90 ? int(e - p) : 0, p, int(e - p));
}
#ifdef SMALL
#define DIV 256
#else
#define DIV 1
#endif
static constexpr u64 two32 = 1ull << 32;
// every 32 bit value; negative ones as the text of the magnitude
MC_SWEEP(all32, two32 / DIV, two32 / DIV, 1 << 20)
{
    odometer o; o.set(lo, 0); clear(); at(lo);
    for (u64 i = lo; i < hi; ++i) { run(unsigned(i), "", 0, o, "", 0); o.inc(); }
    nontrivial(hi - lo - 1); step(hi - lo);
}
MC_SWEEP(all_negative32, (two32 / 2 + 1) / DIV, (two32 / 2 + 1) / DIV, 1 << 20)
{
    odometer o; clear(); at(lo); u64 s = lo ? lo : 1; o.set(s, 0);
    for (u64 i = s; i < hi; ++i) { run(int(0u - unsigned(i)), "-", 1, o, "", 0); o.inc(); }
    nontrivial(hi - lo - 1); step(hi - lo);
}
// 64 bit, two chunks: every value of the high chunk, every value of the low one
// (quick: 1/8, spread over the whole range in blocks of 2^17)
MC_SWEEP(high_of_two, two32 / 8 / DIV, two32 / DIV, 1 << 17)
{
    static const char* const post[] = { "00000000", "99999999", "07090301" }; static const u64 val[] = { 0, 99999999, 7090301 };
    at(lo); u64 n = hi - lo, blk = lo >> 17; unsigned k = unsigned(blk) % 3;
    u64 s = thorough ? lo : (blk * 8 + blk * 5 % 8) << 17; hi = s + n;
    if (s < 43) s = 43;
    if (s >= hi) return;
    odometer o; o.set(s, 0); clear();
    for (u64 i = s; i < hi; ++i) { run((unsigned long long)(i * 100000000 + val[k]), "", 0, o, post[k], 8); o.inc(); }
    nontrivial(hi - s); step(hi - s);
}
MC_SWEEP(low_of_two, 100000000 / DIV, 100000000 / DIV, 1 << 18)
{
    odometer o; o.set(lo, 8); clear(); at(lo);
    static const char* const pre[] = { "43", "-6789012345", "100", "4294967295" };
    static const long long val[] = { 43, -6789012345ll, 100, 4294967295ll };
    for (u64 i = lo; i < hi; ++i) { clear(); for (int k = 0; k < 4; ++k) { if (k == 1) continue; run((long long)(val[k] * 100000000 + (long long)i), pre[k], k == 0 ? 2 : k == 2 ? 3 : 10, o, "", 0); } o.inc(); }
    nontrivial(3 * (hi - lo)); step(3 * (hi - lo));
}
// 64 bit, three chunks: every value of the middle and of the low one, of both signs
MC_SWEEP(middle_of_three, 100000000 / DIV, 100000000 / DIV, 1 << 18)
{
    odometer o; o.set(lo, 8); clear(); at(lo);
    for (u64 i = lo; i < hi; ++i)
    {
        clear(); run((unsigned long long)(1700ull * 10000000000000000ull + i * 100000000 + 30507009), "1700", 4, o, "30507009", 8);
        clear(); run(-(long long)(44ll * 10000000000000000ll + (long long)i * 100000000 + 99999999), "-44", 3, o, "99999999", 8);
        o.inc();
    }
    nontrivial(2 * (hi - lo)); step(2 * (hi - lo));
}
MC_SWEEP(low_of_three, 100000000 / DIV, 100000000 / DIV, 1 << 18)
{
    odometer o; o.set(lo, 8); clear(); at(lo);
    for (u64 i = lo; i < hi; ++i)
    {
        clear(); run((unsigned long long)(1844ull * 10000000000000000ull + 67430000ull * 100000000 + i), "184467430000", 12, o, "", 0);
        clear(); run(-(long)(922ll * 10000000000000000ll + 900000ll * 100000000 + (long long)i), "-92200900000", 12, o, "", 0);
        o.inc();
    }
    nontrivial(2 * (hi - lo)); step(2 * (hi - lo));
}
static const u64 low_parts[] = { 0, 1, 9, 10, 99, 12345678, 90000000, 99999999, 10203040, 1000000 };
MC_SWEEP(high_of_three, 1845 * 100, 1845 * 100, 512) { for (u64 i = lo; i < hi; ++i) { at(i); u64 h = i / 100, y = low_parts[i / 10 % 10], l = low_parts[i % 10]; if (h == 1844 && y > 67440737) continue; all64(h * 10000000000000000ull + y * 100000000 + l); all64(0 - (h / 2 * 10000000000000000ull + y * 100000000 + l)); } }
// thorough: every value of the first and second chunk together with edges of the third
#ifndef SMALL
MC_SWEEP(pairs_of_three, 0, 1844ull * 1000000, 1 << 18)
{
    for (u64 i = lo; i < hi; ++i) { if (i == lo) at(i); u64 h = i / 1000000, y = i % 1000000 * 100 + h % 100, v = h * 10000000000000000ull + y * 100000000 + low_parts[i % 10]; one((unsigned long long)v); one(-(long long)(v / 2)); }
    step(2 * (hi - lo));
}
#endif
// neighbourhoods of k * 10^e and of every power of two
MC_SWEEP(powers, 20 * 99 * 7 + 64 * 7, 20 * 99 * 7 + 64 * 7, 256)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 v;
        if (i >= 20 * 99 * 7) { u64 j = i - 20 * 99 * 7; v = (1ull << (j / 7)) + (j % 7) - 3; }
        else { u64 p = 1; for (u64 e = 0; e < i / (99 * 7); ++e) p *= 10; v = p * (i / 7 % 99 + 1) + i % 7 - 3; }
        all64(v);
        if (i % 997 == 3 && want_sample()) sample("%llu", v);
    }
}
// every 0/9 and 0/1 digit pattern of 20 digits: carries and leading zeros inside every chunk
MC_SWEEP(patterns, 1 << 20, 1 << 20, 1 << 14)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 a = 0, b = 0, c = 0;
        for (int d = 19; d >= 0; --d) { u64 bit = i >> d & 1; a = a * 10 + bit * 9; b = b * 10 + bit; c = c * 10 + (bit ? 1 : 8); }
        one((unsigned long long)a); one((unsigned long long)b); one((long long)c); one((unsigned long long)c); step(4);
    }
}
