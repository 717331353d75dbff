//@ level: exploration
//@ technique: bounded exhaustive enumeration of input sequences (every order type up to a length) run on the real sort templates, against a counting oracle, in exact-size buffers
//@ note: Sorting only compares and moves, so every key pattern over n symbols covers every behaviour of the sort on n elements. Lengths above the bound are covered by complete families of structured patterns around the default cutoff.
//@ cxx: -O1 -fsanitize=address
//@ rule: the range has at least two elements and is not already in order
//@ bounds: every sequence of length 0..7 over n keys (8 over 4 keys, thorough 8 over 8), cutoffs 3..9; every 0/1 sequence up to length 14 (18); every rotation/stride/sawtooth/organ-pipe family member for lengths 2..40, 120..136, 250..262, 300 and the default cutoff; 8 (14) lengths around 2^16, 2^17 (2^20) with 24 patterns each
//@ assume: elements are distinguishable (key, id); buffers are exact-size heap blocks watched by AddressSanitizer
#include "mc.h"
#include "ce/sort.h"
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
using namespace mc;

struct item
{
    int key, id; long sum;
    explicit item(int k, int i) : key(k), id(i), sum(k * 31 + i) { }
    item(item const& o) : key(o.key), id(o.id), sum(o.sum) { }
    item& operator=(item const& o) { key = o.key; id = o.id; sum = o.sum; return *this; }
    friend bool operator<(item const& a, item const& b) { return a.key < b.key; }
    void operator&() const = delete;
};
struct wide // ordered by something different from its memory, moved by assignment only
{
    unsigned char key; unsigned short id; unsigned char pad[9];
    bool operator<(wide const& o) const { return (unsigned char)(key ^ 0x80) < (unsigned char)(o.key ^ 0x80); }
};

template<class T> static T make(int k, int i);
template<> item make<item>(int k, int i) { return item(k, i); }
template<> wide make<wide>(int k, int i) { wide w{}; w.key = (unsigned char)(k ^ 0x80); w.id = (unsigned short)i; memset(w.pad, i, sizeof w.pad); return w; }

template<class T> static int key_of(T const& t) { return t.key; }
template<> int key_of(wide const& t) { return t.key ^ 0x80; }

static std::string show(int n, int const* k) { std::string s; for (int i = 0; i < n && i < 300; ++i) { if (i) s += ' '; s += std::to_string(k[i]); } return s; }

template<class T> struct buf
{
    T* p; int n;
    buf(int n_, int const* k) : n(n_) { p = (T*)malloc(size_t(n) * sizeof(T)); for (int i = 0; i < n; ++i) new ((void*)std::addressof(p[i])) T(make<T>(k[i], i)); }
    ~buf() { free(p); }
    void check(int const* k, bool stable, char const* what)
    {
        static thread_local std::vector<unsigned char> seen; seen.assign(size_t(n), 0);
        for (int i = 0; i < n; ++i)
        {
            int id = p[i].id;
            MC_CHECK(id >= 0 && id < n && !seen[size_t(id)] && key_of(p[i]) == k[id], "%s of %d elements (%s): element %d of the result is not one of the range, or twice", what, n, show(n, k).c_str(), i);
            seen[size_t(id)] = 1;
            if (i == 0) continue;
            MC_CHECK(key_of(p[i - 1]) <= key_of(p[i]), "%s of %d elements (%s): out of order at %d", what, n, show(n, k).c_str(), i);
            if (stable && key_of(p[i - 1]) == key_of(p[i])) MC_CHECK(p[i - 1].id < id, "%s of %d elements (%s): equal elements changed order at %d", what, n, show(n, k).c_str(), i);
        }
    }
};
template<class T, size_t N> static void intro(int n, int const* k)
{
    buf<T> b(n, k); ce::intro_sort<N>(b.p, b.p + n); step();
    char what[40]; snprintf(what, sizeof what, "intro_sort<%zu>", N); b.check(k, false, what);
}
template<class T> static void intro_default(int n, int const* k) { buf<T> b(n, k); ce::intro_sort(b.p, b.p + n); step(); b.check(k, false, "intro_sort"); }
template<class T> static void insertion(int n, int const* k) { buf<T> b(n, k); ce::insertion_sort(b.p, b.p + n); step(); b.check(k, true, "insertion_sort"); }

template<class T> static void small(int n, int const* k)
{
    bool nt = false; for (int i = 1; i < n; ++i) nt |= k[i] < k[i - 1];
    if (nt) nontrivial();
    insertion<T>(n, k);
    intro<T, 3>(n, k); intro<T, 4>(n, k); intro<T, 5>(n, k); intro<T, 6>(n, k); intro<T, 7>(n, k);
    if (n >= 8) intro<T, 8>(n, k), intro<T, 9>(n, k);
}
template<class T> static void all(u64 lo, u64 hi, int n, int base)
{
    int k[20];
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        u64 r = i; for (int j = 0; j < n; ++j) k[j] = int(r % u64(base)), r /= u64(base);
        small<T>(n, k);
        if (i % 7919 == 5) { hasher h; h.u(i); h.u(u64(n)); outcome(h); if (want_sample()) sample("keys %s", show(n, k).c_str()); }
    }
}
#define A(NAME, T, N, B, Q, TH) MC_SWEEP(NAME, Q, TH, 2048) { all<T>(lo, hi, N, B); }
A(n0, item, 0, 1, 1, 1) A(n1, item, 1, 1, 1, 1) A(n2, item, 2, 2, 4, 4) A(n3, item, 3, 3, 27, 27) A(n4, item, 4, 4, 256, 256)
A(n5, item, 5, 5, 3125, 3125) A(n6, item, 6, 6, 46656, 46656) A(n7, item, 7, 7, 823543, 823543)
A(n5w, wide, 5, 5, 3125, 3125) A(n6w, wide, 6, 6, 46656, 46656)
A(n8_4, item, 8, 4, 65536, 65536) A(n8, item, 8, 8, 0, 16777216) A(n9_4, item, 9, 4, 262144, 262144) A(n11_3, item, 11, 3, 177147, 177147) A(n12_3, item, 12, 3, 0, 531441)
A(b14, item, 14, 2, 16384, 16384) A(b18, item, 18, 2, 0, 262144)

// permutations
template<int N> static void perms(u64 lo, u64 hi)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int pool[N], k[N]; for (int j = 0; j < N; ++j) pool[j] = j;
        u64 r = i; for (int j = N; j > 0; --j) { int c = int(r % u64(j)); r /= u64(j); k[N - j] = pool[c]; for (int l = c; l + 1 < j; ++l) pool[l] = pool[l + 1]; }
        small<item>(N, k);
    }
}
MC_SWEEP(perm8, 40320, 40320, 1024) { perms<8>(lo, hi); }
MC_SWEEP(perm9, 362880, 362880, 1024) { perms<9>(lo, hi); }
MC_SWEEP(perm10, 0, 3628800, 4096) { perms<10>(lo, hi); }

// longer ranges: complete families
static int family(int n, int f, int p, int* k)
{
    switch (f)
    {
    case 0: for (int i = 0; i < n; ++i) k[i] = (i + p) % n; return 1;                         // rotations
    case 1: for (int i = 0; i < n; ++i) k[i] = (n * 2 - i + p) % n; return 1;                 // reversed rotations
    case 2: for (int i = 0; i < n; ++i) k[i] = i % (p + 1); return 1;                         // sawtooth, p = 0 is all equal
    case 3: for (int i = 0; i < n; ++i) k[i] = i < p ? i : n * 2 - i; return 1;               // organ pipes
    case 4: for (int i = 0; i < n; ++i) k[i] = int(u64(i) * u64(p * 2 + 1) % u64(n)); return 1; // strides
    case 5: for (int i = 0; i < n; ++i) k[i] = i; std::swap(k[p], k[n - 1 - p]); return 1;    // one swap
    case 6: for (int i = 0; i < n; ++i) k[i] = i == p; return 1;                              // one larger
    case 7: for (int i = 0; i < n; ++i) k[i] = i != p; return 1;                              // one smaller
    case 8: for (int i = 0; i < n; ++i) k[i] = (i * i + p * i) % (n | 1); return 1;           // quadratic residues
    case 9: for (int i = 0; i < n; ++i) k[i] = i * n / 3 % (p + 2); return 1;
    }
    return 0;
}
template<int NF> static void longer(u64 lo, u64 hi, std::vector<int> const& lengths, bool cut)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int n = lengths[size_t(i / (10 * 300)) % lengths.size()], f = int(i / 300 % 10), p = int(i % 300);
        if (p >= n) continue;
        int k[400]; family(n, f, p, k);
        bool nt = false; for (int j = 1; j < n; ++j) nt |= k[j] < k[j - 1];
        if (nt) nontrivial();
        if (i % 997 == 1 && want_sample()) sample("length %d family %d parameter %d", n, f, p);
        insertion<item>(n, k); intro_default<item>(n, k);
        if (cut) { intro<item, 3>(n, k); intro<item, 4>(n, k); intro<item, 16>(n, k); intro<item, 17>(n, k); intro<wide, 5>(n, k); }
        else intro<item, 32>(n, k);
    }
}
static std::vector<int> range(int a, int b) { std::vector<int> v; for (int i = a; i <= b; ++i) v.push_back(i); return v; }
MC_SWEEP(medium, 39 * 3000, 39 * 3000, 600) { static auto l = range(2, 40); longer<0>(lo, hi, l, true); }
MC_SWEEP(around_cutoff, 6 * 3000, 17 * 3000, 300) { static auto l = thorough ? range(120, 136) : std::vector<int>{ 126, 127, 128, 129, 130, 131 }; longer<0>(lo, hi, l, thorough); }
MC_SWEEP(two_levels, 3 * 3000, 14 * 3000, 100) { static auto l = thorough ? std::vector<int>{ 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 300 } : std::vector<int>{ 256, 257, 300 }; longer<0>(lo, hi, l, thorough); }
// long ranges: lengths around 2^16, 2^17 (2^20)
MC_SWEEP(long_ranges, 8 * 24, 14 * 24, 1)
{
    static int const ns[] = { 65535, 65536, 65537, 65536 + 128, 131071, 131072, 131073, 100003, 131072 + 127, 196608, 262144, 262145, 1048576, 1048577 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int n = ns[i / 24], f = int(i % 24); std::vector<int> k(static_cast<size_t>(n));
        switch (f / 6)
        {
        case 0: { int p = f % 6 < 3 ? f % 6 : n - (f % 6 - 2); for (int j = 0; j < n; ++j) k[size_t(j)] = (j + p) % n; break; }                                     // nearly in order
        case 1: { int p = f % 6 * (n / 6); for (int j = 0; j < n; ++j) k[size_t(j)] = (2 * n - 1 - j + p) % n; break; }                                            // reversed, rotated
        case 2: { u64 s = u64(n) * 2 / 3 + u64(f % 6) * 1001 | 1; for (int j = 0; j < n; ++j) k[size_t(j)] = int(u64(j) * s % u64(n)); break; }                    // strides
        default: { u32 r = u32(f); for (int j = 0; j < n; ++j) r = r * 1664525 + 1013904223, k[size_t(j)] = int(r >> (f % 2 ? 1 : 12)); if (f % 3 == 0) k[size_t(n - 1)] = -1; }   // scattered; the least element last
        }
        nontrivial();
        intro_default<item>(n, k.data()); intro<item, 20>(n, k.data());
    }
}
