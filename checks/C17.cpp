//@ level: exploration
//@ technique: exhaustive enumeration of byte sequences (all of up to 3 bytes, all 4 character groups in every alignment, every length up to 64) through an independent encoder and the real decoder in exactly sized buffers
//@ note: Every group of up to three bytes at every position of the text and every terminator character; longer sequences are repetitions of the groups.
//@ cxx: -O1
//@ config plain: -O2
//@ config asan: -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift -DSMALL
//@ rule: a sequence of at least one byte
//@ bounds: all byte sequences of length 0..3 (2^24), all 2 byte windows at every position of sequences of 4..7 bytes, lengths 0..64 with 6 patterns, every partial decode, every terminator (256), byte counts around 2^16, 2^20, 2^24 and beyond 2^30, the size function for 2^20 (2^32) counts and around every power of two
//@ assume: the encoder follows RFC 4648
#include "mc.h"
#include "ce/ce.h"
#include <string>
#include <vector>
#include <cstring>
#include <memory>
using namespace mc;
using bytes = std::vector<unsigned char>;
static char const alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string encode(bytes const& b, bool pad)
{
    std::string s; size_t i = 0;
    for (; i + 2 < b.size(); i += 3) { u32 v = b[i] << 16 | b[i + 1] << 8 | b[i + 2]; for (int k = 18; k >= 0; k -= 6) s += alpha[v >> k & 63]; }
    if (b.size() - i == 1) { u32 v = b[i] << 16; s += alpha[v >> 18 & 63]; s += alpha[v >> 12 & 63]; if (pad) s += "=="; }
    if (b.size() - i == 2) { u32 v = b[i] << 16 | b[i + 1] << 8; s += alpha[v >> 18 & 63]; s += alpha[v >> 12 & 63]; s += alpha[v >> 6 & 63]; if (pad) s += "="; }
    return s;
}
// decode the first `n` bytes of the text into an exactly sized buffer from exactly the characters that carry them
static void check_decode(bytes const& b, std::string const& s, size_t n)
{
    size_t need = (n * 4 + 2) / 3;
    std::unique_ptr<char[]> src(new char[need]); if (need) memcpy(src.get(), s.data(), need);
    std::unique_ptr<unsigned char[]> dst(new unsigned char[n + 8]); memset(dst.get(), 0xa7, n + 8);
    ce::base64::decode(n, dst.get() + 4, src.get());
    bool ok = n == 0 || memcmp(dst.get() + 4, b.data(), n) == 0;
    for (int i = 0; i < 4; ++i) ok &= dst[i] == 0xa7 && dst[n + 4 + i] == 0xa7;
    MC_CHECK(ok, "decoding %zu bytes of %s gives other bytes or writes outside", n, s.c_str());
}
static void check(bytes const& b)
{
    for (int pad = 0; pad < 2; ++pad)
    {
        auto s = encode(b, pad);
        std::unique_ptr<char[]> z(new char[s.size() + 1]); memcpy(z.get(), s.c_str(), s.size() + 1);
        size_t n = ce::base64::size(z.get());
        MC_CHECK(n == b.size(), "the decoded size of %s is %zu, the text holds %zu bytes", s.c_str(), n, b.size());
        std::unique_ptr<unsigned char[]> dst(new unsigned char[n]);
        ce::base64::decode(n, dst.get(), z.get());
        MC_CHECK(n == 0 || memcmp(dst.get(), b.data(), n) == 0, "decoding %s does not give the encoded bytes back", s.c_str());
    }
    if (b.size()) nontrivial();
}
MC_SWEEP(up_to_three, 1 + 256 + 65536 + (u64(1) << 24), 1 + 256 + 65536 + (u64(1) << 24), 1 << 14)
{
#ifdef SMALL
    u64 stride = thorough ? 7 : 61;
#else
    u64 stride = 1;
#endif
    for (u64 i = lo; i < hi; i += i < 66000 ? 1 : stride)
    {
        at(i); u64 r = i; bytes b;
        if (r < 1) ; else if ((r -= 1) < 256) b = { (unsigned char)r };
        else if ((r -= 256) < 65536) b = { (unsigned char)r, (unsigned char)(r >> 8) };
        else r -= 65536, b = { (unsigned char)r, (unsigned char)(r >> 8), (unsigned char)(r >> 16) };
        check(b);
    }
}
// all values of two adjacent bytes at every position of sequences of 4..7 (12) bytes, both backgrounds
MC_SWEEP(windows, u64(2 * 18) << 16, u64(2 * 63) << 16, 1 << 12)
{
#ifdef SMALL
    u64 stride = 61;
#else
    u64 stride = 1;
#endif
    for (u64 i = lo; i < hi; i += stride)
    {
        at(i); u64 r = i >> 16; unsigned char bg = r % 2 ? 0xff : 0; r /= 2;
        size_t len = 4; while (r >= len - 1) r -= len - 1, ++len;
        bytes b(len, bg); b[r] = (unsigned char)i; b[r + 1] = (unsigned char)(i >> 8);
        check(b);
        auto s = encode(b, false);
        if (i % 16 == 0) for (size_t n = 0; n <= len; ++n) check_decode(b, s, n);
    }
}
MC_SWEEP(lengths, 65 * 6, 1025 * 6, 1)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); size_t len = size_t(i / 6); int k = int(i % 6); bytes b;
        for (size_t j = 0; j < len; ++j) b.push_back((unsigned char)(k == 0 ? 0 : k == 1 ? 255 : k == 2 ? j * 37 + 11 : k == 3 ? 0x80 >> j % 8 : k == 4 ? 1 << j % 8 : 251 - 3 * j));
        check(b);
        auto s = encode(b, false);
        for (size_t n = 0; n <= len; ++n) check_decode(b, s, n);
        // every character at the end of the text: only alphabet characters count
        for (int c = 0; c < 256; ++c)
        {
            bool in = c && strchr(alpha, c);
            std::unique_ptr<char[]> t(new char[s.size() + 2]);
            memcpy(t.get(), s.data(), s.size()); t[s.size()] = char(c); t[s.size() + 1] = '=';
            size_t chars = s.size() + in, want = chars / 4 * 3 + chars % 4 * 3 / 4;
            MC_CHECK(ce::base64::size(t.get()) == want, "size of %zu characters followed by character %d is %zu, expected %zu", s.size(), c, ce::base64::size(t.get()), want);
        }
    }
}
MC_SWEEP(counts, u64(1) << 20, u64(1) << 32, 1 << 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        if (i % 64 == 0) at(i);
        auto one = [](u64 n) { u64 want = u64((unsigned __int128)n * 3 / 4); MC_CHECK(ce::base64::size(size_t(n)) == want, "size of %llu characters is %llu, expected %llu", n, (u64)ce::base64::size(size_t(n)), want); };
        one(i); one(~i); one(i << 32 | i);
        if (i < 64 * 64) for (int d = -3; d < 4; ++d) one((u64(1) << i % 64) + (u64(1) << i / 64) + u64(d));
        nontrivial();
    }
}
// compile time
struct t0 { static constexpr char data[] = ""; };
struct t1 { static constexpr char data[] = "Zg=="; };
struct t2 { static constexpr char data[] = "Zm8"; };
struct t3 { static constexpr char data[] = "Zm9vYmFy"; };
struct t4 { static constexpr char data[] = "+/+/AAEC/w"; };
template<class T> static void ct(bytes const& want)
{
    static constexpr ce::base64::decoder<T> d{};
    MC_CHECK(d.size == want.size() && memcmp(d.data, want.data(), want.size()) == 0, "compile-time decoding of %s differs", T::data);
    unsigned char rt[16]; ce::base64::decode(ce::base64::size(T::data), rt, T::data);
    MC_CHECK(memcmp(rt, want.data(), want.size()) == 0, "run-time decoding of %s differs", T::data);
}
constexpr bool classes()
{
    for (int i = -128; i < 128; ++i)
    {
        char c = char(i);
        bool d = i >= '0' && i <= '9', u = i >= 'A' && i <= 'Z', l = i >= 'a' && i <= 'z', h = d || (i >= 'A' && i <= 'F') || (i >= 'a' && i <= 'f');
        if (ce::ascii::is_base10(c) != d || ce::ascii::is_upper(c) != u || ce::ascii::is_lower(c) != l || ce::ascii::is_alpha(c) != (u || l) || ce::ascii::is_base16(c) != h || ce::ascii::is_base64(c) != (d || u || l || i == '+' || i == '/')) return false;
    }
    return true;
}
MC_SWEEP(constants, 1, 1, 1)
{
    at(0);
    MC_CHECK(classes(), "a character class is wrong");
    ct<t1>({ 'f' }); ct<t2>({ 'f', 'o' }); ct<t3>({ 'f', 'o', 'o', 'b', 'a', 'r' }); ct<t4>({ 0xfb, 0xff, 0xbf, 0, 1, 2, 0xff });
    MC_CHECK(ce::base64::size(t0::data) == 0, "the size of the empty text is not 0");
    nontrivial();
}
// long texts: byte counts around 2^16 and 2^17 (2^24), text lengths around 2^16
MC_SWEEP(long_texts, 24, 30, 1)
{
    static size_t const ns[] = { 255, 256, 257, 3071, 3072, 3073, 49150, 49151, 49152, 49153, 49154, 65534, 65535, 65536, 65537, 65538, 98303, 98304, 98305, 131071, 131072, 131073, 196608, 196609, 1048576, 1048577, 12582912, 12582913, 16777216, 16777217 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); bytes b; u32 r = u32(i);
        for (size_t k = 0; k < ns[i]; ++k) r = r * 1664525 + 1013904223, b.push_back((unsigned char)(r >> 24));
        check(b);
        auto s = encode(b, true);
        for (size_t n : { ns[i] - 1, ns[i] - 2, ns[i] - 3, ns[i] / 2 }) check_decode(b, s, n);
    }
}

// beyond 2^30 bytes: one block of text and one of bytes, each mapped again and again; the last block is compared
#include <sys/mman.h>
#include <unistd.h>
MC_SWEEP(far_texts, 1, 1, 1)
{
#ifndef SMALL
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        size_t const B = 3 << 20, T = 4 << 20, blocks = 1024 / 3 + 2, n = blocks * B;
        bytes b; u32 r = 7; for (size_t k = 0; k < B; ++k) r = r * 1664525 + 1013904223, b.push_back((unsigned char)(r >> 24));
        auto s = encode(b, false);
        int f = memfd_create("text", 0), g = memfd_create("bytes", 0);
        char* t = (char*)mmap(nullptr, blocks * T, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        unsigned char* d = (unsigned char*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bool ok = f >= 0 && g >= 0 && t != MAP_FAILED && d != MAP_FAILED && ftruncate(f, off_t(T)) == 0 && ftruncate(g, off_t(B)) == 0 && pwrite(f, s.data(), T, 0) == ssize_t(T);
        for (size_t k = 0; ok && k < blocks; ++k)
            ok = mmap(t + k * T, T, PROT_READ, MAP_SHARED | MAP_FIXED, f, 0) != MAP_FAILED && mmap(d + k * B, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, g, 0) != MAP_FAILED;
        if (!ok) continue; // no address space for this one
        // the last block starts at a multiple of 3: what is there afterwards was written last, in order
        ce::base64::decode(n, d, t); step(); nontrivial();
        MC_CHECK(memcmp(d, b.data(), B) == 0, "decoding %zu bytes, block after block of the same text, leaves other bytes in the last block", n);
        munmap(t, blocks * T); munmap(d, n); close(f); close(g);
    }
#else
    for (u64 i = lo; i < hi; ++i) at(i);
#endif
}
