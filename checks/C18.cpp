//@ level: model_checking
//@ technique: stateless exhaustive search over token sequences (literals and spans) of the real size and decode functions against a reference decoder, source and output in exactly sized guarded buffers; exhaustive enumeration of every span (16 lengths x 4096 distances)
//@ note: Every literal/span pattern over more than two control bytes, every span length and distance, every token sequence to a small depth; longer streams are not enumerated.
//@ cxx: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
//@ bounds: all token sequences of up to 6 (7) tokens over {3 literals, spans of length 3,4,17,18 at distances 1,2,3,4,half,all}; all 2^17 (2^20) kind patterns; every length x every distance after 4096 bytes of output, at each of 8 positions of the control byte (thorough) or one; every span of 4 (16) lengths x 8 distances at 48 (160) positions around output 2^16, output 2^17 and encoded 2^16; one stream of more than 2^32 bytes (thorough: decoded whole)
//@ assume: the reference follows the format comment of lziii.h
#include "mc.h"
#include "ce/ce.h"
#include "ce/lziii.h"
#include <vector>
#include <cstring>
#include <memory>
using namespace mc;
using bytes = std::vector<unsigned char>;

struct stream
{
    bytes enc, out; size_t ctl = 0; int bits = 8;
    void kind(bool literal)
    {
        if (bits == 8) ctl = enc.size(), enc.push_back(0), bits = 0;
        if (literal) enc[ctl] |= (unsigned char)(1 << bits);
        ++bits;
    }
    void lit(unsigned char c) { kind(true); enc.push_back(c); out.push_back(c); }
    void span(size_t len, size_t dist)
    {
        kind(false);
        size_t o = 4096 - dist;
        enc.push_back((unsigned char)(o & 255)); enc.push_back((unsigned char)((len - 3) << 4 | o >> 8));
        for (size_t i = 0; i < len; ++i) out.push_back(out[out.size() - dist]);
    }
};
static void check(stream const& s, unsigned unused = 0)
{
    bytes enc = s.enc;
    for (int b = s.bits; b < 8; ++b) if (unused >> b & 1) enc[s.ctl] |= (unsigned char)(1 << b);   // unused control bits are free
    std::unique_ptr<unsigned char[]> e(new unsigned char[enc.size()]);
    if (enc.size()) memcpy(e.get(), enc.data(), enc.size());
    size_t n = ce::lziii::size(enc.size(), e.get());
    MC_CHECK(n == s.out.size(), "the computed size of a stream of %zu bytes is %zu, it describes %zu bytes", enc.size(), n, s.out.size());
    std::unique_ptr<unsigned char[]> d(new unsigned char[n]);
    if (n) memset(d.get(), 0xe3, n);
    ce::lziii::decode(n, d.get(), e.get());
    for (size_t i = 0; i < n; ++i) MC_CHECK(d[i] == s.out[i], "byte %zu of %zu decodes to %02x, the stream describes %02x", i, n, d[i], s.out[i]);
    MC_CHECK(enc.empty() || memcmp(e.get(), enc.data(), enc.size()) == 0, "decoding changed the encoded stream");
    step();
    hasher h; h.b(enc.data(), enc.size()); state(h);
    hasher o; o.b(s.out.data(), s.out.size()); outcome(o);
}
MC_DFS(tokens)
{
    stream s; int const depth = thorough ? 7 : 6;
    static unsigned char const lits[] = { 0, 0xff, 'k' };
    static size_t const lens[] = { 3, 4, 17, 18 };
    for (int i = 0; i < depth; ++i)
    {
        size_t n = s.out.size(), ds[6]; int nd = 0;
        for (size_t d : { size_t(1), size_t(2), size_t(3), size_t(4), n / 2, n }) { bool dup = d < 1 || d > n; for (int k = 0; k < nd; ++k) dup |= ds[k] == d; if (!dup) ds[nd++] = d; }
        int c = choose(1 + 3 + nd * 4);
        if (c == 0) break;
        if (c < 4) s.lit(lits[c - 1]), trace("literal %02x", lits[c - 1]);
        else s.span(lens[(c - 4) % 4], ds[(c - 4) / 4]), trace("span of %zu from %zu back", lens[(c - 4) % 4], ds[(c - 4) / 4]);
    }
    check(s, 0xff);
}
MC_SWEEP(patterns, u64(1) << 17, u64(1) << 20, 1 << 10)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        // bit pattern of kinds; a span before any output is not well formed, so one literal leads
        for (int count = i ? 63 - __builtin_clzll(i) : 0, k = 0; k < 2; ++k)
        {
            stream s; s.lit(0x11);
            for (int b = 0; b < count; ++b)
                if (i >> b & 1) s.lit((unsigned char)(b * 31 + 7)); else s.span(3 + size_t(b * 5 + k * 7) % 16, 1 + size_t(b * 3 + k) % s.out.size());
            check(s, k ? 0xff : 0);
            nontrivial();
        }
    }
}
MC_SWEEP(spans, u64(16) * 4096, u64(16) * 4096 * 8, 1 << 8)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        size_t len = 3 + i % 16, dist = 1 + i / 16 % 4096; int pos = thorough ? int(i / 65536) : int(i / 16 % 8);
        // lead: enough output for every distance, made of literals and long spans; the span under test at control bit `pos`
        static stream lead[8]; static bool made;
        if (!made)
        {
            for (int p = 0; p < 8; ++p)
            {
                stream& s = lead[p]; u32 r = 12345;
                for (int k = 0; k < 64; ++k) r = r * 1664525 + 1013904223, s.lit((unsigned char)(r >> 24));
                while (s.out.size() < 4096 + 60) { r = r * 1664525 + 1013904223; if (r >> 31) s.lit((unsigned char)(r >> 16)); else s.span(3 + (r >> 8) % 16, 1 + (r >> 12) % s.out.size() % 4096); }
                while (s.bits % 8 != p) s.lit((unsigned char)s.bits);
            }
            made = true;
        }
        stream s = lead[pos];
        s.span(len, dist); s.lit(0x99);
        check(s);
        // the shortest output that allows the distance
        if (dist <= 40 || i % 64 == 0) { stream q; for (size_t k = 0; k < dist; ++k) q.lit((unsigned char)(k * 7 + 1)); q.span(len, dist); check(q, 0xff); }
        nontrivial();
    }
}
// far positions: output and encoded indices around and past 2^16, spans that start at, cross and end beyond it
MC_SWEEP(far, 3 * 48 * 4 * 8, 3 * 160 * 16 * 8, 1 << 4)
{
    u32 const nat = thorough ? 160 : 48, nlen = thorough ? 16 : 4;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        static size_t const ds[] = { 1, 2, 17, 255, 256, 257, 4095, 4096 };
        static unsigned char const l4[] = { 3, 4, 17, 18 };
        size_t dist = ds[i % 8], len = thorough ? 3 + i / 8 % nlen : l4[i / 8 % nlen]; u32 off = u32(i / 8 / nlen % nat), shape = u32(i / 8 / nlen / nat);
        // shape 0, 1: mostly long spans, output position near 2^16 or 2^17; 2: literals only, the encoded position near 2^16
        static stream lead[3]; static bool made;
        if (!made)
        {
            for (int p = 0; p < 3; ++p)
            {
                stream& s = lead[p]; u32 r = 99; size_t end = p == 1 ? 1 << 17 : 1 << 16;
                for (int k = 0; k < 300; ++k) r = r * 1664525 + 1013904223, s.lit((unsigned char)(r >> 24));
                while ((p == 2 ? s.enc.size() : s.out.size()) < end - 60 - nat / 2)
                {
                    r = r * 1664525 + 1013904223;
                    if (p == 2 || r >> 29 == 0) s.lit((unsigned char)(r >> 16)); else s.span(3 + (r >> 8) % 16, 1 + (r >> 12) % s.out.size() % 4096);
                }
                while ((p == 2 ? s.enc.size() : s.out.size()) < end - nat / 2 - 10) s.lit((unsigned char)(s.out.size() * 13));
            }
            made = true;
        }
        stream s = lead[shape];
        for (u32 k = 0; k < off; ++k) s.lit((unsigned char)(k * 5 + 3));
        s.span(len, dist); s.lit(0x42); s.span(18, 4096); s.span(5, 20);
        check(s, 0xff);
        nontrivial();
    }
}
// more than 2^32 bytes of output described by one stream: the size (and, thorough, every decoded byte)
MC_SWEEP(huge, 1, 1, 1)
{
    at(0);
    // one literal, then spans of 18 from 1 back: 17 encoded bytes hold 8 spans (144 bytes of output)
    size_t const groups = (size_t(1) << 32) / 144 + 2, total = 1 + 7 * 18 + groups * 144;
    std::unique_ptr<unsigned char[]> e(new unsigned char[2 + 14 + groups * 17]);
    unsigned char* p = e.get(); *p++ = 1; *p++ = 0x5a;
    for (int k = 0; k < 7; ++k) *p++ = 0xff, *p++ = 0xff;
    for (size_t g = 0; g < groups; ++g) { *p++ = 0; for (int k = 0; k < 8; ++k) *p++ = 0xff, *p++ = 0xff; }
    size_t n = ce::lziii::size(size_t(p - e.get()), e.get());
    MC_CHECK(n == total, "the computed size of a stream that describes %zu bytes is %zu", total, n);
    if (thorough)
    {
        std::unique_ptr<unsigned char[]> d(new unsigned char[n]);
        ce::lziii::decode(n, d.get(), e.get());
        for (size_t i = 0; i < n; ++i) MC_CHECK(d[i] == 0x5a, "byte %zu of %zu decodes to %02x, the stream describes 5a", i, n, d[i]);
    }
    step(); nontrivial();
}
struct src2 { size_t size = 4; unsigned char data[4] = { 0x01, 'z', 0xff, 0xff }; };
template<class S> static void ct(bool whole)
{
    static constexpr ce::lziii::decoder<S> d{};
    S s{}; stream r;
    // reference decoding of the source
    size_t i = 0; unsigned c = 1;
    while (i < s.size) { if (c == 1) c = s.data[i++] | 0x100; if (c & 1) r.out.push_back(s.data[i++]); else { size_t dist = 4096 - (s.data[i] + s.data[i + 1] % 16 * 256), len = s.data[i + 1] / 16 + 3; i += 2; for (size_t k = 0; k < len; ++k) r.out.push_back(r.out[r.out.size() - dist]); } c >>= 1; }
    MC_CHECK(d.size == r.out.size() && memcmp(d.data, r.out.data(), r.out.size()) == 0, "compile-time decoding differs (%zu bytes, expected %zu)", size_t(d.size), r.out.size());
    unsigned char rt[256]; ce::lziii::decode(d.size, rt, s.data);
    MC_CHECK(memcmp(rt, d.data, d.size) == 0, "run-time and compile-time decoding differ");
    (void)whole;
}
MC_SWEEP(constants, 1, 1, 1)
{
    at(0);
    ct<src2>(true);
    MC_CHECK(ce::lziii::size(0, nullptr) == 0, "the size of an empty stream is not 0"); ce::lziii::decode(0, nullptr, nullptr);
    nontrivial();
}
