//@ level: model_checking
//@ technique: stateless exhaustive search over every way to cut a message into chained calls with elements of every width and signedness of the real fnv1a32/64; exhaustive enumeration of single element values and bases
//@ note: Single element steps completely for elements up to 32 bits (64 bit: 2^29 (2^32) values of each half); longer messages through every cutting of fixed patterns and all messages of up to two bytes.
//@ cxx: -O2
//@ config plain:
//@ config asan: -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift -DSMALL
//@ bounds: element types signed and unsigned char, char, short, int, long, long long and their unsigned forms; all values up to 32 bits, all 2^32 bases with a byte; every cutting of 9 (12) byte patterns into chained calls; all texts of up to 2 (3) characters; 128 bit elements with any two bytes of six values; arrays and texts of more than 2^32 bytes
//@ assume: the reference multiplies byte by byte as in the published definition
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
#include <memory>
#include <type_traits>
using namespace mc;

static u32 ref32(u32 h, unsigned char const* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u; return h; }
static u64 ref64(u64 h, unsigned char const* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }
static constexpr u32 b32 = 2166136261u;
static constexpr u64 b64 = 14695981039346656037ull;

template<class E> static void bytes_of(E e, unsigned char* out) { using U = std::make_unsigned_t<E>; U u = U(e); for (size_t i = 0; i < sizeof(E); ++i) out[i] = (unsigned char)(u64(u) >> 8 * i); }

template<class E> static void one(E e)
{
    unsigned char b[8]; bytes_of(e, b);
    u32 g = ce::hash::fnv1a32(1, &e); u64 G = ce::hash::fnv1a64(1, &e);
    MC_CHECK(g == ref32(b32, b, sizeof e), "fnv1a32 of one %zu byte element %llx is %08x, expected %08x", sizeof e, (u64)e, g, ref32(b32, b, sizeof e));
    MC_CHECK(G == ref64(b64, b, sizeof e), "fnv1a64 of one %zu byte element %llx is %016llx, expected %016llx", sizeof e, (u64)e, G, ref64(b64, b, sizeof e));
}
#ifdef SMALL
#define STRIDE 4099
#else
#define STRIDE 1
#endif
template<class F> static void each(u64 lo, u64 hi, F f) { u64 k = 0; for (u64 i = lo; i < hi; i += STRIDE) { if ((k++ & 1023) == 0 || STRIDE > 1) at(i); f(i); } nontrivial(k); step(k); }

MC_SWEEP(values16, 65536, 65536, 1 << 10)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        if (i < 256) one((unsigned char)i), one((signed char)i), one(char(i));
        one((unsigned short)i); one(short(i));
        for (int s = 0; s < 64; s += 8) one((unsigned long long)(i << s)), one((long long)(i << s)), one((long)~(i << s)), one((unsigned long)(i << s | i >> (64 - s) % 64));
        one(wchar_t(i)); one(char16_t(i));
        nontrivial(); step();
    }
}
MC_SWEEP(values32, u64(1) << 32, u64(1) << 32, 1 << 22)
{
    each(lo, hi, [](u64 i) { u32 v = u32(i); one((unsigned)v); one(int(v)); });
}
MC_SWEEP(halves64, u64(1) << 29, u64(1) << 32, 1 << 22)
{
    each(lo, hi, [](u64 i) { u64 v = thorough ? i : i * 8 + (i >> 9 & 7); one((unsigned long long)(v)); one((long long)(v << 32 | 0x80)); });
}
MC_SWEEP(bases, u64(1) << 32, u64(1) << 32, 1 << 22)
{
    each(lo, hi, [](u64 i) {
        unsigned char c = 0xa5; u32 g = ce::hash::fnv1a32(1, &c, u32(i));
        MC_CHECK(g == ref32(u32(i), &c, 1), "fnv1a32 of one byte with basis %08x is %08x", u32(i), g);
        signed char d = -3; unsigned char e = 0xfd; u64 B = i * 0x100000001ull, G = ce::hash::fnv1a64(1, &d, B);
        MC_CHECK(G == ref64(B, &e, 1), "fnv1a64 of one byte with basis %016llx is %016llx", B, G);
    });
}

template<class E> static void call(u32& h, u64& H, bool first, unsigned char const* p, size_t n)
{
    std::unique_ptr<E[]> m(new E[n / sizeof(E)]);
    if (n) memcpy((void*)m.get(), p, n);
    h = first && h == b32 ? ce::hash::fnv1a32(n / sizeof(E), m.get()) : ce::hash::fnv1a32(n / sizeof(E), m.get(), h);
    H = first && H == b64 ? ce::hash::fnv1a64(n / sizeof(E), m.get()) : ce::hash::fnv1a64(n / sizeof(E), m.get(), H);
}
MC_DFS(chains)
{
    int const total = thorough ? 12 : 9;
    unsigned char m[16]; int k = choose(5);
    for (int i = 0; i < total; ++i) m[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (unsigned char)(i * 37 + 11) : k == 3 ? (unsigned char)(0x80 | i) : (unsigned char)(i % 3 ? 0 : 0x80);
    u32 const bs[] = { b32, 0, 0xffffffffu };
    int bk = choose(3);
    u32 h = bs[bk]; u64 H = bk ? u64(bs[bk]) * 0x100000001ull : b64;
    u32 h0 = h; u64 H0 = H;
    size_t at = 0; bool empty = false;
    while (at < size_t(total))
    {
        struct { int t, n; } const opts[] = { { 0, 1 }, { 1, 1 }, { 2, 2 }, { 3, 2 }, { 4, 4 }, { 5, 4 }, { 6, 8 }, { 7, 8 }, { 0, 0 }, { 7, 0 }, { 3, 4 }, { 1, 3 } };
        int ok[12], c = 0;
        for (int i = 0; i < 12; ++i) if (at + opts[i].n <= size_t(total) && !(opts[i].n == 0 && (empty || at % 4))) ok[c++] = i;
        auto o = opts[ok[choose(c)]];
        empty = o.n == 0;
        u32 ph = h; u64 pH = H; bool first = at == 0;
        switch (o.t)
        {
        case 0: call<unsigned char>(h, H, first, m + at, o.n); break;
        case 1: call<signed char>(h, H, first, m + at, o.n); break;
        case 2: call<unsigned short>(h, H, first, m + at, o.n); break;
        case 3: call<short>(h, H, first, m + at, o.n); break;
        case 4: call<unsigned>(h, H, first, m + at, o.n); break;
        case 5: call<int>(h, H, first, m + at, o.n); break;
        case 6: call<unsigned long long>(h, H, first, m + at, o.n); break;
        default: call<long long>(h, H, first, m + at, o.n); break;
        }
        step();
        trace("fnv1a over %d bytes as element type %d: %08x -> %08x, %016llx -> %016llx", o.n, o.t, ph, h, pH, H);
        MC_CHECK(h == ref32(ph, m + at, o.n), "fnv1a32 over %d bytes as element type %d from %08x is %08x, expected %08x", o.n, o.t, ph, h, ref32(ph, m + at, o.n));
        MC_CHECK(H == ref64(pH, m + at, o.n), "fnv1a64 over %d bytes as element type %d from %016llx is %016llx, expected %016llx", o.n, o.t, pH, H, ref64(pH, m + at, o.n));
        at += o.n;
        hasher s; s.u(k); s.u(bk); s.u(at); s.u(h); s.u(H); state(s);
    }
    MC_CHECK(h == ref32(h0, m, total) && H == ref64(H0, m, total), "the chained hash differs from the hash of the whole message");
    outcome(H);
}

// texts, exactly sized
static void text(unsigned char const* p, size_t n)
{
    std::unique_ptr<char[]> m(new char[n + 1]);
    if (n) memcpy(m.get(), p, n);
    m[n] = 0;
    u32 g = ce::hash::fnv1a(m.get()), want = ref32(b32, p, n);
    MC_CHECK(g == want, "fnv1a of a %zu character text (%02x ..) is %08x, expected %08x", n, n ? p[0] : 0, g, want);
    MC_CHECK(ce::hash::fnv1a32(n, m.get()) == want, "fnv1a32 of the characters differs");
}
MC_SWEEP(texts, 1 + 255 + 255 * 255, 1 + 255 + 255 * 255 + 255 * 255 * 255, 1 << 12)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 r = i; unsigned char b[40];
        if (r < 1) { text(b, 0); for (int j = 0; j < 40; ++j) b[j] = (unsigned char)(200 + j); text(b, 40); }
        else if ((r -= 1) < 255) b[0] = (unsigned char)(r + 1), text(b, 1);
        else if ((r -= 255) < 255 * 255) b[0] = (unsigned char)(r % 255 + 1), b[1] = (unsigned char)(r / 255 + 1), text(b, 2);
        else r -= 255 * 255, b[0] = (unsigned char)(r % 255 + 1), b[1] = (unsigned char)(r / 255 % 255 + 1), b[2] = (unsigned char)(r / 65025 + 1), text(b, 3);
        nontrivial(); step();
    }
}
constexpr short cs[2] = { -2, 0x1234 };
constexpr auto c0 = ce::hash::fnv1a("foobar");
constexpr auto c1 = ce::hash::fnv1a32(2, cs);
constexpr auto c2 = ce::hash::fnv1a64(2, cs);
constexpr char fb[] = { 'f', 'o', 'o', 'b', 'a', 'r' };
constexpr auto c3 = ce::hash::fnv1a64(6, fb);
MC_SWEEP(constants, 1, 1, 1)
{
    at(0); unsigned char b[4] = { 0xfe, 0xff, 0x34, 0x12 };
    MC_CHECK(c0 == 0xbf9cf968u && c3 == 0x85944171f73967e8ull, "the published values of foobar are not met: %08x %016llx", c0, (u64)c3);
    MC_CHECK(c1 == ref32(b32, b, 4) && c2 == ref64(b64, b, 4), "compile-time hash of shorts is %08x %016llx", c1, (u64)c2);
    MC_CHECK(ce::hash::fnv1a32(0, b) == b32 && ce::hash::fnv1a64(0, b) == b64 && ce::hash::fnv1a32(0, b, 5u) == 5 && ce::hash::fnv1a64(0, b, 5ull) == 5, "hash of nothing is not the basis");
    nontrivial();
}
// long arrays: counts around 2^16, 2^17 (2^24) of elements of 1, 2, 4 and 8 bytes
template<class E> static void many(size_t n)
{
    std::vector<E> v; std::vector<unsigned char> b; u64 r = n;
    for (size_t i = 0; i < n; ++i) { r = r * 6364136223846793005ull + 1442695040888963407ull; v.push_back(E(r >> 20)); unsigned char t[8]; bytes_of(v.back(), t); b.insert(b.end(), t, t + sizeof(E)); }
    u32 g = ce::hash::fnv1a32(n, v.data()); u64 G = ce::hash::fnv1a64(n, v.data()); step(2);
    MC_CHECK(g == ref32(b32, b.data(), b.size()), "fnv1a32 of %zu elements of %zu bytes is %08x", n, sizeof(E), g);
    MC_CHECK(G == ref64(b64, b.data(), b.size()), "fnv1a64 of %zu elements of %zu bytes is %016llx", n, sizeof(E), G);
}
MC_SWEEP(long_arrays, 8, 11, 1)
{
    static size_t const ns[] = { 255, 256, 32768, 65535, 65536, 65537, 131072, 131073, 1048577, 16777216, 16777217 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); nontrivial();
        many<unsigned char>(ns[i]); many<signed char>(ns[i]); many<short>(ns[i]); many<unsigned>(ns[i]); many<long long>(ns[i]);
        // text
        std::vector<char> t; u32 r = 3; for (size_t k = 0; k < ns[i]; ++k) r = r * 1664525 + 1013904223, t.push_back(char(r >> 24 ? r >> 24 : 1));
        t.push_back(0);
        u32 g = ce::hash::fnv1a(t.data()); step();
        MC_CHECK(g == ref32(b32, (unsigned char const*)t.data(), ns[i]), "fnv1a of a text of %zu characters is %08x", ns[i], g);
    }
}

// elements wider than 64 bits, of either sign, and of the remaining character types and bool
template<class E> static void wide(E const* e, size_t n, u32 h, u64 H)
{
    std::vector<unsigned char> b; for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < sizeof(E); ++j) b.push_back((unsigned char)(e[k] >> int(8 * j)));
    u32 g = ce::hash::fnv1a32(n, e, h); u64 G = ce::hash::fnv1a64(n, e, H); step(2);
    MC_CHECK(g == ref32(h, b.data(), b.size()), "fnv1a32 of %zu elements of %zu bytes is %08x, expected %08x", n, sizeof(E), g, ref32(h, b.data(), b.size()));
    MC_CHECK(G == ref64(H, b.data(), b.size()), "fnv1a64 of %zu elements of %zu bytes is %016llx, expected %016llx", n, sizeof(E), G, ref64(H, b.data(), b.size()));
}
MC_SWEEP(wide_elements, 1 << 18, 1 << 22, 1 << 10)
{
    static unsigned char const vs[] = { 0, 1, 0x7f, 0x80, 0xff, 0x5a };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        // two bytes of every pair of positions hold any of the values, the others repeat the lowest digit
        unsigned __int128 v[2];
        for (int e = 0; e < 2; ++e)
        {
            u64 k = i * 0x9e3779b97f4a7c15ull + u64(e); if (i < 6 * 6 * 6 * 256) k = i;
            unsigned char fill = vs[k % 6]; k /= 6; unsigned char a = vs[k % 6]; k /= 6; unsigned char c = vs[k % 6]; k /= 6;
            unsigned char b[16]; for (auto& x : b) x = fill;
            b[k % 16] = a; b[k / 16 % 16] = c; if (e) b[15] ^= 0x80;
            memcpy(&v[e], b, 16);
        }
        __int128 s[2] = { __int128(v[0]), __int128(v[1]) };
        wide(v, 1, b32, b64); wide(s, 1, b32, b64); wide(v, 2, u32(i), i); wide(s, 2, u32(~i), ~i);
        char32_t q[3] = { char32_t(v[0]), char32_t(v[1]), char32_t(v[0] >> 64) }; wide(q, 3, b32, b64);
        bool l[5] = { (i & 1) != 0, (i & 2) != 0, (i & 4) != 0, (i & 8) != 0, (i & 16) != 0 };
        unsigned char lb[5]; for (int k = 0; k < 5; ++k) lb[k] = l[k];
        MC_CHECK(ce::hash::fnv1a32(5, l) == ref32(b32, lb, 5) && ce::hash::fnv1a64(5, l) == ref64(b64, lb, 5), "the hash of five booleans is not the one of their bytes");
        nontrivial();
    }
}
// more than 2^32 elements in one call and a text of more than 2^32 characters: one 3 MiB block mapped again and again
#include <sys/mman.h>
#include <unistd.h>
MC_SWEEP(far_arrays, 3, 3, 1)
{
    slow_execution(60);
#ifndef SMALL
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        size_t const B = 3 << 20, elements = (size_t(1) << 32) + 21, blocks = elements / B + 1;
        std::vector<char> m; u32 r = 9; for (size_t k = 0; k < B; ++k) r = r * 1664525 + 1013904223, m.push_back(char(r >> 24 ? r >> 24 : 1));
        int f = memfd_create("message", 0);
        char* t = (char*)mmap(nullptr, blocks * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bool ok = f >= 0 && t != MAP_FAILED && ftruncate(f, off_t(B)) == 0 && pwrite(f, m.data(), B, 0) == ssize_t(B);
        for (size_t k = 0; ok && k < blocks; ++k) ok = mmap(t + k * B, B, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, f, 0) != MAP_FAILED;
        if (ok)
        {
            if (i == 2) t[elements] = 0; // a private copy of that page
            u64 g = i == 0 ? ce::hash::fnv1a32(elements, (unsigned char const*)t) : i == 1 ? ce::hash::fnv1a64(elements, (unsigned char const*)t) : ce::hash::fnv1a(t);
            step(); at(i);
            u32 h = b32; u64 H = b64; auto p = (unsigned char const*)m.data();
            for (size_t k = 0; k < elements;) { size_t n = elements - k < B ? elements - k : B; if (i == 1) H = ref64(H, p, n); else h = ref32(h, p, n); k += n; }
            MC_CHECK(g == (i == 1 ? H : h), "fnv1a (call %llu) of %zu bytes is %016llx, expected %016llx", i, elements, g, i == 1 ? H : u64(h));
            nontrivial();
        }
        if (t != MAP_FAILED) munmap(t, blocks * B);
        if (f >= 0) close(f);
    }
#else
    for (u64 i = lo; i < hi; ++i) at(i);
#endif
}
