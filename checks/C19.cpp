//@ level: exploration
//@ technique: exhaustive enumeration of generator states in complete subspaces (every value of each half of the state, every one and two bit state, every 12 bit window) against independent transcriptions of the published recurrences, and of all seeds of up to two bytes with all single byte changes
//@ note: The recurrences are linear over GF(2) (xoroshiro) or affine modulo 2^64 (pcg) up to the output function; complete halves and all one and two bit states are covered, not the whole 2^64 and 2^128 state spaces.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address -DSMALL
//@ rule: a non-zero state
//@ bounds: xoroshiro64**: 2^32 values of each half; xoroshiro128++: 2^28 (2^32) values of each quarter, all one and two bit states; pcg32: 2^32 values of each half of the state and all rotations; next64 pairs; seeds of 0..2 bytes completely, up to 40 bytes by pattern with every single byte change, every length to 700 and around powers of two to 2^17 by pattern
//@ assume: published code: xoroshiro64starstar.c, xoroshiro128plusplus.c, pcg_basic (XSH-RR 64/32); increments and seeding as documented in properties.jsonl
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
#include <memory>
using namespace mc;
static u32 rol(u32 x, int k) { return k & 31 ? x << (k & 31) | x >> (32 - (k & 31)) : x; }
static u64 rol64(u64 x, int k) { return x << k | x >> (64 - k); }

// published recurrences, transcribed with their own variable layout
static u32 ref64ss(u32 s[2]) { u32 const s0 = s[0]; u32 s1 = s[1]; u32 const r = rol(s0 * 0x9E3779BBu, 5) * 5; s1 ^= s0; s[0] = rol(s0, 26) ^ s1 ^ (s1 << 9); s[1] = rol(s1, 13); return r; }
static u64 ref128pp(u64 s[2]) { u64 const s0 = s[0]; u64 s1 = s[1]; u64 const r = rol64(s0 + s1, 17) + s0; s1 ^= s0; s[0] = rol64(s0, 49) ^ s1 ^ (s1 << 21); s[1] = rol64(s1, 28); return r; }
static u32 refpcg(u64& s) { u64 o = s; s = o * 6364136223846793005ull + 0xda3e39cb94b95bdbull; u32 x = u32(((o >> 18) ^ o) >> 27), rot = u32(o >> 59); return x >> rot | x << ((32 - rot) & 31); }

static void x64(u32 a, u32 b)
{
    ce::xoroshiro64ss g{ a, b }; u32 s[2] = { a, b };
    u32 got = next(g), want = ref64ss(s);
    MC_CHECK(got == want && g.a == s[0] && g.b == s[1], "xoroshiro64** from %08x %08x gives %08x and state %08x %08x, published %08x and %08x %08x", a, b, got, g.a, g.b, want, s[0], s[1]);
}
static void x64more(u32 a, u32 b)
{
    ce::xoroshiro64ss g{ a, b }, k{ a, b }; u32 s[2] = { a, b }, t[2] = { a, b };
    for (int i = 0; i < 3; ++i)
    {
        u32 w = ref64ss(s);
        MC_CHECK(next32(g) == w && g.a == s[0] && g.b == s[1], "next32 of xoroshiro64** from %08x %08x differs at step %d", a, b, i);
        u64 h = ref64ss(t); h = h << 32 | ref64ss(t);
        u64 q = next64(k);
        MC_CHECK(q == h && k.a == t[0] && k.b == t[1], "next64 of xoroshiro64** from %08x %08x is %016llx, expected %016llx", a, b, q, h);
    }
}
static void x128(u64 a, u64 b, bool more)
{
    ce::xoroshiro128pp g{ a, b }, h = g, k = g; u64 s[2] = { a, b };
    for (int i = 0; i < (more ? 3 : 1); ++i)
    {
        u64 got = next(g), want = ref128pp(s);
        MC_CHECK(got == want && g.a == s[0] && g.b == s[1], "xoroshiro128++ from %016llx %016llx gives %016llx, published %016llx (step %d)", a, b, got, want, i);
        if (more)
        {
            u32 lowv = next32(h); u64 full = next64(k);
            MC_CHECK(lowv == u32(want) && h.a == s[0] && h.b == s[1], "next32 of xoroshiro128++ is %08x, the low half of the output is %08x", lowv, u32(want));
            MC_CHECK(full == want && k.a == s[0] && k.b == s[1], "next64 of xoroshiro128++ is not its output");
        }
    }
}
static void pcg(u64 q)
{
    ce::pcg32_64_t g{ q }; u64 s = q;
    u32 e = read(g); auto st = step(g); u32 want = refpcg(s);
    MC_CHECK(e == want, "pcg32 output of state %016llx is %08x, published %08x", q, e, want);
    MC_CHECK(u64(st) == s, "pcg32 successor of %016llx is %016llx, published %016llx", q, u64(st), s);
    u32 n = next(g);
    MC_CHECK(n == want && u64(g) == s, "next of pcg32 is not its output and successor");
}
#ifdef SMALL
static u64 const stride = 4099;
#else
static u64 const stride = 1;
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { u64 k = 0; for (u64 i = lo; i < hi; i += stride) { if ((k++ & 1023) == 0 || stride > 1) at(i); f(i); } nontrivial(k); }
MC_SWEEP(xoroshiro64_halves, u64(1) << 32, u64(4) << 32, 1 << 22)
{
    each(lo, hi, [](u64 i) { u32 v = u32(i), c = i >> 32 == 0 ? 0x9e3779b9u : u32(0x01234567u * (i >> 32)); x64(v, c); x64(c, v); });
}
MC_SWEEP(xoroshiro64_pairs, 4097 * 4096, 4097 * 4096, 1 << 16)
{
    each(lo, hi, [](u64 i) { u32 p = u32(i % 4097), q = u32(i / 4097); auto w = [](u32 v) { return v == 4096 ? ~0u : rol(v & 127, int(v >> 7)); }; x64more(w(p), w(q)); });
}
MC_SWEEP(xoroshiro128_quarters, u64(1) << 28, u64(1) << 32, 1 << 20)
{
    each(lo, hi, [](u64 i) { u64 v = thorough ? i : i * 16 + (i >> 9 & 15); u64 c = 0x9e3779b97f4a7c15ull; x128(v, c, false); x128(v << 32, c, false); x128(c, v, false); x128(c, v << 32 | 5, false); x128(v, v << 32 | v, false); });
}
MC_SWEEP(xoroshiro128_bits, 128 * 128 * 2, 128 * 128 * 2, 1 << 8)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 s[2] = { 0, 0 }; int p = int(i % 128), q = int(i / 128 % 128);
        s[p / 64] |= u64(1) << p % 64; s[q / 64] |= u64(1) << q % 64;
        if (i >= 16384) s[0] = ~s[0], s[1] = ~s[1];
        x128(s[0], s[1], true); nontrivial();
    }
}
MC_SWEEP(pcg_halves, u64(1) << 32, u64(8) << 32, 1 << 22)
{
    each(lo, hi, [](u64 i) { u64 v = u32(i), k = i >> 32; pcg(v | (0x1357924680abcdefull * (k + 1)) << 32); pcg(v << 32 | u32(0x9e3779b9u * (k + 1))); });
}
MC_SWEEP(pcg_windows, u64(53) << 12, u64(53) << 12, 1 << 10)
{
    for (u64 i = lo; i < hi; ++i) { at(i); u64 v = (i & 4095) << (i >> 12); pcg(v); pcg(~v); pcg(v ^ 0xaaaaaaaaaaaaaaaaull); pcg(v ^ 0x8000000000000000ull); nontrivial(); }
}

// ---- seeding: a fixed function of exactly the given bytes, whatever was there before and wherever the bytes lie
using bytes = std::vector<unsigned char>;
static u32 crc(u32 c, unsigned char const* p, size_t n) { u32 v = ~c; for (size_t i = 0; i < n; ++i) { v ^= p[i]; for (int k = 0; k < 8; ++k) v = v & 1 ? v >> 1 ^ 0x82f63b78u : v >> 1; } return ~v; }
static u64 fnv(u64 h, unsigned char const* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }
static void seeds(bytes const& b)
{
    std::unique_ptr<unsigned char[]> m(new unsigned char[b.size()]); if (b.size()) memcpy(m.get(), b.data(), b.size());
    size_t n = b.size();
    ce::xoroshiro64ss g{ 1, 2 }; seed(g, n, m.get());
    u32 a = crc(0, b.data(), n / 2), c = crc(a, b.data() + n / 2, n - n / 2);
    MC_CHECK(g.a == a && g.b == c, "seeding xoroshiro64** from %zu bytes gives %08x %08x, expected %08x %08x", n, g.a, g.b, a, c);
    ce::xoroshiro128pp h{ 3, 4 }; seed(h, n, m.get());
    u64 p = fnv(14695981039346656037ull, b.data(), n), q = fnv(p, b.data(), n);
    MC_CHECK(h.a == p && h.b == q, "seeding xoroshiro128++ from %zu bytes gives %016llx %016llx, expected %016llx %016llx", n, h.a, h.b, p, q);
    ce::pcg32_64_t k{ 5 }; seed(k, n, m.get());
    u64 s = 0; refpcg(s); s += p; refpcg(s);
    MC_CHECK(u64(k) == s, "seeding pcg32 from %zu bytes gives %016llx, expected %016llx", n, u64(k), s);
}
MC_SWEEP(seed_bytes, 1 + 256 + 65536 + 41 * 8, 1 + 256 + 65536 + 41 * 8, 1 << 8)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 r = i; bytes b;
        if (r < 41 * 8)
        {
            for (u64 j = 0; j < r / 8; ++j) b.push_back((unsigned char)(j * 37 + r % 8 * 51));
            for (auto& x : b) for (int bit = 0; bit < 8; ++bit) { x ^= (unsigned char)(1 << bit); seeds(b); x ^= (unsigned char)(1 << bit); }
        }
        else if ((r -= 41 * 8) < 1) ; else if ((r -= 1) < 256) b = { (unsigned char)r }; else r -= 256, b = { (unsigned char)r, (unsigned char)(r >> 8) };
        seeds(b); nontrivial();
    }
}
// long seeds
MC_SWEEP(long_seeds, 700 + 44, 700 + 44, 4)
{
    static u64 const at_size[] = { 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 100000, 131071, 131072, 131073, 1048575, 1048576, 1048579, 16777219 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); bytes b(i < 700 ? i : at_size[(i - 700) / 2]); for (size_t j = 0; j < b.size(); ++j) b[j] = (unsigned char)((j * 2654435761u >> 11) * (i % 2) + (j == b.size() - 1));
        seeds(b); nontrivial();
    }
}
MC_SWEEP(seed_values, u64(1) << 20, u64(1) << 32, 1 << 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        if (i % 64 == 0) at(i);
        for (u64 v : { i, i << 32, ~i, i * 0x9e3779b97f4a7c15ull })
        {
            ce::pcg32_64_t k{ 9 }; seed(k, v);
            u64 s = 0; refpcg(s); s += v; refpcg(s);
            MC_CHECK(u64(k) == s, "seeding pcg32 with %016llx gives %016llx, expected %016llx", v, u64(k), s);
        }
        nontrivial();
    }
}
