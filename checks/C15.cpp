//@ level: model_checking
//@ technique: stateless exhaustive search over every way to cut a message into byte, 32 bit and 64 bit calls and continuations of the real crc32; exhaustive enumeration of every single-step transition (all 2^32 words, all 2^32 running values) against a bit-by-bit register
//@ note: The step function is covered completely (every running value, every word), messages completely up to 3 bytes, longer messages through every cutting of fixed patterns; eight polynomials.
//@ cxx: -O2
//@ config plain:
//@ config asan: -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift -DSMALL
//@ bounds: 8 polynomials; every message of 0..2 bytes (3 bytes: one polynomial quick, all thorough); every 32 bit word from 2 running values, every running value with 2 words, every half of a 64 bit word; every cutting of 12 (16) byte messages over {1,4,8} byte calls with empty calls in between, 6 patterns; one message of more than 2^32 bytes in one call against its parts
//@ assume: the reference shifts one bit at a time (the sweeps use a 2^16 table that is itself made bit by bit)
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
#include <cstdlib>
#include <memory>
using namespace mc;

static u32 bit_step(u32 poly, u32 v, unsigned char byte)
{
    v ^= byte;
    for (int i = 0; i < 8; ++i) v = (v & 1) ? (v >> 1) ^ poly : v >> 1;
    return v;
}
static u32 ref_bytes(u32 poly, u32 c, std::vector<unsigned char> const& m)
{
    u32 v = ~c;
    for (auto b : m) v = bit_step(poly, v, b);
    return ~v;
}

constexpr u32 polys[8] = { 0x82f63b78u, 0xedb88320u, 0xeb31d82eu, 0xd5828281u, 0x80000000u, 0xffffffffu, 0x00000001u, 0xa833982bu };
template<u32 P> using T = ce::crc32_t<P>;

struct api
{
    u32 (*b)(u32, size_t, unsigned char const*);
    u32 (*w)(u32, size_t, ce::uint32_t const*);
    u32 (*q)(u32, size_t, ce::uint64_t const*);
};
template<u32 P> static api mk()
{
    return {
        [](u32 c, size_t n, unsigned char const* p) { return u32(ce::crc32(T<P>(c), n, p)); },
        [](u32 c, size_t n, ce::uint32_t const* p) { return u32(ce::crc32(T<P>(c), n, p)); },
        [](u32 c, size_t n, ce::uint64_t const* p) { return u32(ce::crc32(T<P>(c), n, p)); } };
}
static api apis[8] = { mk<polys[0]>(), mk<polys[1]>(), mk<polys[2]>(), mk<polys[3]>(), mk<polys[4]>(), mk<polys[5]>(), mk<polys[6]>(), mk<polys[7]>() };

// exact copies so that reading outside is seen by the sanitizer build
static u32 call(int p, int width, u32 c, unsigned char const* bytes, size_t n)
{
    std::unique_ptr<unsigned char[]> m(new unsigned char[n]);
    if (n) memcpy(m.get(), bytes, n);
    if (width == 1) return apis[p].b(c, n, m.get());
    if (width == 4) return apis[p].w(c, n / 4, (ce::uint32_t const*)m.get());
    return apis[p].q(c, n / 8, (ce::uint64_t const*)m.get());
}

static std::vector<unsigned char> pattern(int k, int n)
{
    std::vector<unsigned char> m;
    for (int i = 0; i < n; ++i)
        m.push_back(k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (unsigned char)(i * 37 + 11) : k == 3 ? (unsigned char)(0x80 >> (i % 8)) : k == 4 ? (unsigned char)(i == 0) : (unsigned char)(0xf0 - 29 * i));
    return m;
}

// every way to cut a message into calls of any width and length, with empty calls
MC_DFS(cuts)
{
    int const total = thorough ? 16 : 12;
    int p = choose(8);
    auto m = pattern(choose(6), total);
    u32 const starts[] = { 0, 1, 0xffffffffu, 0x80000000u };
    u32 c = pick(starts), c0 = c;
    size_t at = 0; bool empty = false;
    while (at < m.size())
    {
        // (width, length)
        struct { int w, n; } const opts[] = { { 1, 1 }, { 4, 4 }, { 8, 8 }, { 1, 3 }, { 4, 8 }, { 1, 0 }, { 4, 0 }, { 8, 0 }, { 8, 16 }, { 4, 12 } };
        int ok[10], k = 0;
        for (int i = 0; i < 10; ++i)
            if (at + opts[i].n <= m.size() && !(opts[i].n == 0 && (empty || at % 4))) ok[k++] = i;
        auto o = opts[ok[choose(k)]];
        empty = o.n == 0;
        u32 before = c;
        c = call(p, o.w, c, m.data() + at, o.n);
        std::vector<unsigned char> part(m.begin() + at, m.begin() + at + o.n);
        u32 want = ref_bytes(polys[p], before, part);
        step();
        trace("crc32<%08x>(%08x, %d bytes as %d byte elements from %zu) = %08x", polys[p], before, o.n, o.w, at, c);
        MC_CHECK(c == want, "crc32 with polynomial %08x from %08x over %d bytes as %d byte elements is %08x, the bitwise crc is %08x", polys[p], before, o.n, o.w, c, want);
        at += o.n;
        hasher h; h.u(p); h.u(c); h.u(at); state(h);
    }
    MC_CHECK(c == ref_bytes(polys[p], c0, m), "continued crc32<%08x> is %08x, of the whole message it is %08x", polys[p], c, ref_bytes(polys[p], c0, m));
    outcome(c);
}

// ---- complete sweeps of one step
static u32* tab(int p)
{
    static u32* t[8];
    if (!t[p])
    {
        t[p] = new u32[65536];
        for (u32 i = 0; i < 65536; ++i) t[p][i] = bit_step(polys[p], bit_step(polys[p], i, 0), 0);
    }
    return t[p];
}
static u32 fast(u32 const* t, u32 v, u32 w) { v ^= w; v = t[v & 0xffff] ^ (v >> 16); return t[v & 0xffff] ^ (v >> 16); }

template<class F> static void each(u64 lo, u64 hi, F f)
{
#ifdef SMALL
    for (u64 i = lo; i < hi; i += 4099) { at(i); f(u32(i), int(i >> 32)); nontrivial(); }
#else
    for (u64 i = lo; i < hi; ++i) { if ((i & 1023) == 0) at(i); f(u32(i), int(i >> 32)); }
    nontrivial(hi - lo); step(hi - lo);
#endif
}
MC_SWEEP(words, u64(1) << 32, u64(16) << 32, 1 << 22)
{
    each(lo, hi, [](u32 w, int k) {
        int p = k / 2; auto t = tab(p); u32 c = k % 2 ? 0x12345678u : 0;
        ce::uint32_t x = w;
        u32 got = apis[p].w(c, 1, &x), want = ~fast(t, ~c, w);
        MC_CHECK(got == want, "crc32<%08x> of the word %08x from %08x is %08x, expected %08x", polys[p], w, c, got, want);
    });
}
MC_SWEEP(starts, u64(1) << 32, u64(16) << 32, 1 << 22)
{
    each(lo, hi, [](u32 c, int k) {
        int p = k / 2; auto t = tab(p);
        unsigned char b = k % 2 ? 0xff : 0x5a;
        u32 got = apis[p].b(c, 1, &b), v = ~c ^ b;
        u32 v8 = v >> 8 ^ (t[(v & 0xff) << 8] );
        // t covers two zero bytes: feeding the low byte in the upper half leaves exactly one byte step
        MC_CHECK(got == ~v8, "crc32<%08x> of byte %02x from %08x is %08x, expected %08x", polys[p], b, c, got, ~v8);
    });
}
MC_SWEEP(quads, u64(1) << 29, u64(4) << 32, 1 << 22)
{
    each(lo, hi, [](u32 w, int k) {
        int p = k / 2; auto t = tab(p);
        if (!thorough) w = w * 8u + w / 1024 % 8;
        for (int half = 0; half < 2; ++half)
        {
            ce::uint64_t x = half ? (u64(w) << 32) | 0x9abcdef0u : (u64(0x0fedcba9u) << 32) | w;
            u32 got = apis[p].q(0, 1, &x), want = ~fast(t, fast(t, ~0u, u32(x)), u32(x >> 32));
            MC_CHECK(got == want, "crc32<%08x> of the 64 bit word %016llx is %08x, expected %08x", polys[p], u64(x), got, want);
        }
    });
}
MC_SWEEP(short_messages, u64(8) * (1 + 256 + 65536), u64(8) * (1 + 256 + 65536), 1 << 12)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int p = int(i % 8); u64 r = i / 8; std::vector<unsigned char> m;
        if (r >= 257) r -= 257, m = { (unsigned char)r, (unsigned char)(r >> 8) };
        else if (r >= 1) m = { (unsigned char)(r - 1) };
        u32 got = call(p, 1, 0, m.data(), m.size()), want = ref_bytes(polys[p], 0, m);
        MC_CHECK(got == want, "crc32<%08x> of a %zu byte message is %08x, expected %08x", polys[p], m.size(), got, want);
        if (m.size() > 1) nontrivial();
        step();
    }
}
MC_SWEEP(three_bytes, u64(1) << 24, u64(8) << 24, 1 << 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int p = int(i >> 24);
        unsigned char m[3] = { (unsigned char)i, (unsigned char)(i >> 8), (unsigned char)(i >> 16) };
        u32 got = apis[p].b(0xdeadbeefu, 3, m), v = ~0xdeadbeefu;
        for (auto b : m) v = bit_step(polys[p], v, b);
        MC_CHECK(got == ~v, "crc32<%08x> of %02x %02x %02x is %08x, expected %08x", polys[p], m[0], m[1], m[2], got, ~v);
        nontrivial();
    }
    step(hi - lo);
}

// crc32c of literals; compile-time evaluation gives the same values
template<size_t N> static void literal(char const (&s)[N])
{
    std::vector<unsigned char> m(s, s + N - 1);
    u32 want = ref_bytes(polys[0], 0, m);
    MC_CHECK(ce::crc32c(s) == want, "crc32c of a %zu character text is %08x, expected %08x", N - 1, ce::crc32c(s), want);
    MC_CHECK(call(0, 1, 0, m.data(), m.size()) == want, "crc32c_t crc32 differs from crc32c");
    nontrivial(); step();
}
template<size_t N> static void chars(u64 i)
{
    char s[N]; for (size_t k = 0; k + 1 < N; ++k) s[k] = char(i >> 8 * k); s[N - 1] = 0;
    literal(s);
}
MC_SWEEP(literals, 65536, 1 << 24, 1 << 10)
{
    static char const set[] = { 0, '\xff', '\x80', 'a' };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        if (i < 256) chars<2>(i);
        if (thorough) chars<4>(i); else chars<3>(i);
        if (i == 0) literal(""), literal("The quick brown fox jumps over the lazy dog"), literal("123456789"), literal("a\0b\0"), literal("\xff\x80\x7f");
        if (i < 16384) { char s[8]; for (int k = 0; k < 7; ++k) s[k] = set[i >> 2 * k & 3]; s[7] = 'x'; literal(s); }
    }
}
constexpr unsigned char cb[9] = { '1', '2', '3', '4', '5', '6', '7', '8', '9' };
constexpr ce::uint32_t cw[2] = { 0x34333231u, 0x38373635u };
constexpr ce::uint64_t cq[1] = { 0x3837363534333231ull };
constexpr auto k0 = ce::crc32(T<0xedb88320u>::initial, 9, cb);
constexpr auto k1 = ce::crc32(ce::crc32_t<0xedb88320u>::initial, 2, cw);
constexpr auto k2 = ce::crc32(ce::crc32_t<0xedb88320u>::initial, 1, cq);
constexpr auto k3 = ce::crc32c("123456789");
MC_SWEEP(constants, 1, 1, 1)
{
    at(0);
    std::vector<unsigned char> m(cb, cb + 9), m8(cb, cb + 8);
    MC_CHECK(u32(k0) == 0xcbf43926u && u32(k0) == ref_bytes(0xedb88320u, 0, m), "compile-time crc32 of 123456789 is %08x", u32(k0));
    MC_CHECK(u32(k1) == ref_bytes(0xedb88320u, 0, m8) && k2 == k1, "compile-time crc32 of words is %08x and %08x", u32(k1), u32(k2));
    MC_CHECK(k3 == 0xe3069283u, "compile-time crc32c of 123456789 is %08x", k3);
    for (int p = 0; p < 8; ++p) MC_CHECK(apis[p].b(77, 0, nullptr) == 77 && apis[p].w(77, 0, nullptr) == 77 && apis[p].q(77, 0, nullptr) == 77, "crc32 of nothing is not the starting value");
    nontrivial();
}
// long messages: lengths around 2^16, 2^17 (2^20), in one call of each width and cut near the end and near 2^16
MC_SWEEP(long_messages, 9 * 3, 14 * 3, 1)
{
    static int const ns[] = { 65535, 65536, 65537, 65536 + 8, 131071, 131072, 131080, 524288, 524296, 1048575, 1048576, 1048584, 16777216, 16777224 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int n = ns[i / 3], p = int(i % 3); std::vector<unsigned char> m; u32 r = u32(n);
        for (int k = 0; k < n; ++k) r = r * 1664525 + 1013904223, m.push_back((unsigned char)(r >> 24));
        u32 want = ref_bytes(polys[p], 0x12345678u * u32(p), m);
        for (int w : { 1, 4, 8 })
        {
            if (n % w == 0) { u32 g = call(p, w, 0x12345678u * u32(p), m.data(), size_t(n)); step(); MC_CHECK(g == want, "crc of %d bytes in %d byte elements with polynomial %08x is %08x, expected %08x", n, w, polys[p], g, want); }
            for (int cut : { 8, 65528, 65536, n / 16 * 8, (n - 1) / 8 * 8 })
            {
                if (cut > n || (n - cut) % w) continue;
                u32 g = call(p, 1, call(p, w, 0x12345678u * u32(p), m.data(), size_t(cut)), m.data() + cut, size_t(n - cut)); step(2);
                MC_CHECK(g == want, "crc of %d bytes cut at %d with polynomial %08x is %08x, expected %08x", n, cut, polys[p], g, want);
            }
        }
        nontrivial();
    }
}

// more than 2^32 elements in one call: one 3 MiB block mapped again and again; the same crc comes from continuing over parts of 3 MiB
#include <sys/mman.h>
#include <unistd.h>
MC_SWEEP(far_messages, 1, 1, 1)
{
    slow_execution(60);
#ifndef SMALL
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int const w = 1;
        size_t const B = 3 << 20, elements = (size_t(1) << 32) + 21, blocks = elements * size_t(w) / B + 1;
        std::vector<unsigned char> m; u32 r = 9; for (size_t k = 0; k < B; ++k) r = r * 1664525 + 1013904223, m.push_back((unsigned char)(r >> 24));
        int f = memfd_create("message", 0);
        unsigned char* t = (unsigned char*)mmap(nullptr, blocks * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bool ok = f >= 0 && t != MAP_FAILED && ftruncate(f, off_t(B)) == 0 && pwrite(f, m.data(), B, 0) == ssize_t(B);
        for (size_t k = 0; ok && k < blocks; ++k) ok = mmap(t + k * B, B, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_POPULATE, f, 0) != MAP_FAILED;
        if (ok)
        {
            auto one = [&](u32 c, unsigned char const* p, size_t n) -> u32
            {
                using K = ce::crc32c_t;
                return u32(ce::crc32(K(c), n, p));
            };
            u32 g = one(5, t, elements), h = 5; step(); at(i);
            for (size_t k = 0; k < elements;) { size_t n = elements - k < B / size_t(w) ? elements - k : B / size_t(w); h = one(h, m.data(), n); k += n; }
            MC_CHECK(g == h, "crc of %zu elements of %d bytes in one call is %08x, continued part after part %08x", elements, w, g, h);
            nontrivial();
        }
        if (t != MAP_FAILED) munmap(t, blocks * B);
        if (f >= 0) close(f);
    }
#else
    for (u64 i = lo; i < hi; ++i) at(i);
#endif
}
